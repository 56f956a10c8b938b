package main

import (
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
)

// recordMain needs the recorder, which only an overlay makes accessible
var recordMain func(out, family, dir string, seed int64, n, workers int) error

func main() {
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	in := fs.String("in", "", "input")
	out := fs.String("out", "", "output")
	workers := fs.Int("workers", 48, "parallel scenarios")
	normal := fs.Duration("normal", 10*time.Second, "")
	stall := fs.Duration("stall", 300*time.Millisecond, "")
	slack := fs.Duration("slack", 6*time.Second, "")
	grace := fs.Duration("grace", 60*time.Millisecond, "")
	eofWait := fs.Duration("eofwait", time.Second, "")
	family := fs.String("family", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	part := fs.Int("part", 0, "")
	parts := fs.Int("parts", 1, "")
	size := fs.Int("size", 3, "")
	progress := fs.String("progress", "", "file to write the number of the current input to")
	dir := fs.String("dir", "", "scratch directory")
	shared := fs.Bool("shared", false, "one driver for all scenarios")
	level := fs.String("log", "none", "log level of the driver")
	fs.Parse(os.Args[2:])
	for _, l := range []*stdlog.Logger{log.ErrorLog, log.InfoLog, log.TraceLog} {
		l.SetOutput(io.Discard)
	}
	log.SetLevel(*level)
	var err error
	switch cmd {
	case "session":
		if *shared {
			sharedDriver = bolt.NewDriver()
		}
		err = sessionMain(*in, *out, *workers, tuning{*normal, *stall, *slack, *eofWait})
	case "pool":
		err = poolMain(*in, *out, *workers, *grace)
	case "open":
		err = openMain(*in, *out, *dir, *workers, *slack)
	case "data":
		err = dataMain(*out, *family, *seed, *n, *workers)
	case "codec":
		err = codecMain(*family, *out, *seed, *n, *part, *parts, *size, *progress)
	case "record":
		if recordMain == nil {
			err = fmt.Errorf("built without the recorder")
			break
		}
		err = recordMain(*out, *family, *dir, *seed, *n, *workers)
	default:
		err = fmt.Errorf("unknown command %s", cmd)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}
