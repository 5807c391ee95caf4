package dspt

import (
	"os"
	"testing"

	"vh/vlib"
)

func TestMain(m *testing.M) {
	vlib.Setup()
	os.Exit(m.Run())
}
