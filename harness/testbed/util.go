package main

import "time"

func simDur(ns int64) time.Duration { return time.Duration(ns) }
