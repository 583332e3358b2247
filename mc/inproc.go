package main

// In-process use of the real library through its exported API.

import (
	"os"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

var errFile *os.File

func setupInProcess(e *Env) {
	os.VerifExit = func(code int) {
		if guarding {
			panic(exitPanic{code})
		}
	}
	f, err := os.CreateTemp(e.Dir, "stderr")
	must(err)
	errFile = f
}

// resetLib brings the library back to its state at program start.
func resetLib() {
	coin.Commodities = map[string]*coin.Commodity{}
	coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
	coin.AccountsByName = map[string]*coin.Account{}
	coin.Transactions = nil
	coin.Prices = nil
	coin.Tests = nil
	coin.Root, coin.Unbalanced = nil, nil
	coin.DefaultCommodityId = "CAD"
}

// lib runs f against a fresh library; returns what it wrote to stderr and how it ended.
func (e *Env) lib(f func()) (stderr, outcome string, failed bool) {
	resetLib()
	return e.libKeep(f)
}

func (e *Env) libKeep(f func()) (stderr, outcome string, failed bool) {
	saved := os.Stderr
	os.Stderr = errFile
	start, _ := errFile.Seek(0, 1)
	outcome, failed = e.Guarded(f)
	os.Stderr = saved
	end, _ := errFile.Seek(0, 1)
	if end > start {
		b := make([]byte, end-start)
		errFile.ReadAt(b, start)
		stderr = string(b)
		errFile.Truncate(0)
		errFile.Seek(0, 0)
	}
	e.traces++
	return
}

// loadText loads ledger text and resolves everything.
func loadText(text string) {
	coin.Load(strings.NewReader(text), "t.coin")
	coin.ResolveAll()
}

func withToday(y int, m time.Month, d int, f func()) {
	Y, M, D := coin.Year, coin.Month, coin.Day
	coin.Year, coin.Month, coin.Day = y, m, d
	defer func() { coin.Year, coin.Month, coin.Day = Y, M, D }()
	f()
}
