// Command replay searches the real code for an input that breaks a property.  It is run when a proof obligation
// fails, to turn the failed obligation into a failing input; it decides nothing by itself.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type finding struct {
	What  string `json:"what"`
	Input string `json:"input"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

var (
	seed     int64
	deadline time.Time
	searches = map[string]func(r *rand.Rand){}
)

// found reports a failing input and ends the search
func found(what, input, want, got string) {
	cut := func(s string) string {
		if len(s) > 1500 {
			return s[:1500] + "..."
		}
		return s
	}
	b, _ := json.Marshal(finding{cut(what), cut(input), cut(want), cut(got)})
	fmt.Println("FOUND " + string(b))
	os.Exit(3)
}

func doing(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 1500 {
		s = s[:1500]
	}
	fmt.Println("DOING " + s)
}

// what the source mentions: candidates for inputs that are treated specially
var dict struct {
	Words []string `json:"words"`
	Nums  []int64  `json:"nums"`
	Hot   []string `json:"hot"` // words something is compared with
}

func word(r *rand.Rand) string {
	if len(dict.Words) == 0 {
		return "x"
	}
	if len(dict.Hot) > 0 && r.Intn(3) > 0 {
		return dict.Hot[r.Intn(len(dict.Hot))]
	}
	return dict.Words[r.Intn(len(dict.Words))]
}

// name is something short: half of the time the given one, else a word of the source
func name(r *rand.Rand, usual ...string) string {
	if r.Intn(2) == 0 || len(dict.Words) == 0 {
		return usual[r.Intn(len(usual))]
	}
	for i := 0; i < 20; i++ {
		w := word(r)
		switch strings.ToUpper(w) {
		case "BEGIN", "COMMIT", "ROLLBACK":
			continue
		}
		return w
	}
	return usual[0]
}

func num(r *rand.Rand, usual ...int64) int64 {
	if r.Intn(2) == 0 || len(dict.Nums) == 0 {
		return usual[r.Intn(len(usual))]
	}
	return dict.Nums[r.Intn(len(dict.Nums))] + int64(r.Intn(3)) - 1
}

func late() bool { return time.Now().After(deadline) }

// guard runs f; a panic is returned as text
func guard(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			p = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
		}
	}()
	f()
	return ""
}

func main() {
	prop := flag.String("prop", "", "")
	flag.Int64Var(&seed, "seed", 1, "")
	secs := flag.Int("seconds", 20, "")
	flag.Parse()
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		json.Unmarshal(b, &dict)
	}
	deadline = time.Now().Add(time.Duration(*secs) * time.Second)
	f := searches[*prop]
	if f == nil {
		fmt.Println("no search for " + *prop)
		return
	}
	f(rand.New(rand.NewSource(seed)))
	fmt.Println("nothing found")
}
