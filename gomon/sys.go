package main

import (
	"os"
	"time"
)

func timeout() <-chan time.Time { return time.After(20 * time.Second) }

func exit() { os.Exit(0) }
