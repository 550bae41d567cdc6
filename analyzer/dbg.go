package main

import "os"

var trace = os.Getenv("AN_TRACE") != ""
