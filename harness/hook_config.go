//go:build verifhook

package main

import "github.com/flawedmatrix/gocryptsftp/config"

func init() {
	setReader = func(r interface {
		ReadPassword(prompt string) ([]byte, error)
	}) func() {
		old := config.VerifSetReader(r)
		return func() { config.VerifSetReader(old) }
	}
}
