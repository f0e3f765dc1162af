package props

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) { os.Exit(Main(m)) }

func TestWorker(t *testing.T) { Worker(t) }
