// Command replay looks for concrete inputs on which the real code in /repo
// breaks a property whose proof failed, and replays such inputs. It decides
// nothing by itself: the verifier decides, this finds witnesses.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

// Witness is a failing input.
type Witness struct {
	Property string
	Input    string
	Mode     string
	What     string
}

var (
	prop     = flag.String("prop", "", "property to look at")
	specFile = flag.String("spec", "", "lexical grammar (JSON)")
	out      = flag.String("out", "", "file to write the witness to")
	budget   = flag.Duration("budget", 60*time.Second, "time to spend")
	replayF  = flag.String("replay", "", "witness file to replay")
	selftest = flag.Bool("selftest", false, "report how much was tried")
	corpus   = flag.String("corpus", "/repo", "directory with JavaScript files")
	seed     = flag.Int64("seed", 1, "seed")
)

var deadline time.Time
var tried int
var current string
var currentMode string
var started time.Time

func timeUp() bool { return time.Now().After(deadline) }

// found reports a witness and ends the program.
func found(input, mode, format string, args ...interface{}) {
	w := Witness{*prop, input, mode, fmt.Sprintf(format, args...)}
	b, _ := json.MarshalIndent(w, "", "  ")
	if *out != "" {
		os.WriteFile(*out, append(b, '\n'), 0o644)
	}
	fmt.Printf("WITNESS %s\n", b)
	os.Exit(3)
}

// watch ends the program when one input takes too long.
func watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		st, in := started, current
		if !st.IsZero() && time.Since(st) > 4*time.Second {
			if *prop == "C02" {
				found(in, currentMode, "does not finish within 4 s")
			}
			fmt.Println("an input does not finish")
			os.Exit(2)
		}
	}
}

func begin(input, mode string) {
	current, currentMode, started = input, mode, time.Now()
	tried++
}

func main() {
	flag.Parse()
	deadline = time.Now().Add(*budget)
	loadSpec(*specFile)
	go watch()
	var one *Witness
	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		one = &Witness{}
		if err := json.Unmarshal(b, one); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		*prop = one.Property
		deadline = time.Now().Add(time.Hour)
	}
	switch *prop {
	case "C07", "C08", "C09", "C14", "C17":
		lexSearch(one)
	case "C15":
		lexSearch(one)
		parseSearch(one)
	case "C18":
		toolSearch(one)
	case "C16child":
		concurrentChild()
	case "C13":
		utf16Search(one)
	case "all", "C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11", "C12", "C16", "C20":
		parseSearch(one)
		if *prop == "C01" || *prop == "C02" {
			lexSearch(one)
		}
	}
	if *selftest {
		fmt.Printf("tried %d\n", tried)
	}
}
