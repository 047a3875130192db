// Package simfmt stands in for fmt: printing goes to the simulated process.
package simfmt

import (
	"fmt"

	"dst/simos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(simos.Stdout, format, a...) }
func Scan(a ...any) (int, error)                  { return fmt.Fscan(oneByte{}, a...) }
func Scanln(a ...any) (int, error)                { return fmt.Fscanln(oneByte{}, a...) }
func Scanf(format string, a ...any) (int, error)  { return fmt.Fscanf(oneByte{}, format, a...) }

type oneByte struct{}

func (oneByte) Read(b []byte) (int, error) { return simos.Stdin.Read(b) }
