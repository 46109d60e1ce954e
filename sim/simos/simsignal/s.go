// Package simsignal is os/signal in a world where processes are only killed.
package simsignal

import "crunchsim/simos"

func Notify(c chan<- simos.Signal, s ...simos.Signal) {}
func Stop(c chan<- simos.Signal)                      {}
func Ignore(s ...simos.Signal)                        {}
func Reset(s ...simos.Signal)                         {}
