package gomap

import "testing"

func TestVerifLists(t *testing.T) { vRun(t, 40, 200, (*vEnv).lists) }
