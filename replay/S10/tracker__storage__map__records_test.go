package gomap

import "testing"

func TestVerifRecords(t *testing.T) {
	vRun(t, 40, 200, (*vEnv).records, (*vEnv).lists)
}
