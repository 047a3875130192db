// Code generated by tools/genalias. DO NOT EDIT.

package simfmt

import real "fmt"

type (
	Formatter  = real.Formatter
	GoStringer = real.GoStringer
	ScanState  = real.ScanState
	Scanner    = real.Scanner
	State      = real.State
	Stringer   = real.Stringer
)

var (
	Append       = real.Append
	Appendf      = real.Appendf
	Appendln     = real.Appendln
	Errorf       = real.Errorf
	FormatString = real.FormatString
	Fprint       = real.Fprint
	Fprintf      = real.Fprintf
	Fprintln     = real.Fprintln
	Fscan        = real.Fscan
	Fscanf       = real.Fscanf
	Fscanln      = real.Fscanln
	Sprint       = real.Sprint
	Sprintf      = real.Sprintf
	Sprintln     = real.Sprintln
	Sscan        = real.Sscan
	Sscanf       = real.Sscanf
	Sscanln      = real.Sscanln
)
