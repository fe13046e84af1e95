package gomap

import "testing"

func TestVerifUpdates(t *testing.T) { vRun(t, 40, 200, (*vEnv).contents) }
