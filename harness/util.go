package main

import (
	"math/rand"
	"net/url"
)

type randT = *rand.Rand

func urlq(s string) string { return url.QueryEscape(s) }
