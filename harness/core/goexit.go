package core

import "runtime"

func goexit() { runtime.Goexit() }
