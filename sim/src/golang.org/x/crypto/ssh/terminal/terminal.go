// Package terminal stands in for golang.org/x/crypto/ssh/terminal: standard
// input of a simulated process is a terminal without modes.
package terminal

type State struct{}

func IsTerminal(fd int) bool           { return fd <= 2 }
func MakeRaw(fd int) (*State, error)   { return &State{}, nil }
func GetState(fd int) (*State, error)  { return &State{}, nil }
func Restore(fd int, s *State) error   { return nil }
func GetSize(fd int) (int, int, error) { return 80, 25, nil }
