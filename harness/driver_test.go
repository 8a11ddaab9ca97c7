package harness

import "testing"

func TestDriver(t *testing.T) { DriverMain(t) }
