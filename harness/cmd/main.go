// Command cmd runs harnesses natively on concrete texts: the replay of counterexamples. It reads
// one JSON document per line and prints, per line, the labels of the failed assertions.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse/internal/zzverif/h"
	"github.com/kodaimura/ddlparse/internal/zzverif/zz"
)

type concrete struct {
	Harness string     `json:"harness"`
	Mode    int        `json:"mode"`
	Dialect int        `json:"dialect"`
	Args    []int      `json:"args"`
	Texts   [][]string `json:"texts"`
}

func main() {
	zz.Render = func(t interface{}, e error) string {
		b, _ := json.Marshal(t)
		return fmt.Sprintf("%s %T %v", b, e, e)
	}
	if len(os.Args) > 2 && os.Args[1] == "alone" {
		b, _ := io.ReadAll(os.Stdin)
		d, _ := strconv.Atoi(os.Args[2])
		fmt.Print(h.Parse(d, string(b)))
		return
	}
	zz.FreshParse = func(d int, text string) string {
		c := exec.Command(os.Args[0], "alone", strconv.Itoa(d))
		c.Stdin = strings.NewReader(text)
		b, err := c.Output()
		if err != nil {
			return err.Error()
		}
		return string(b)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		b, err := in.ReadBytes('\n')
		if len(b) > 1 {
			var c concrete
			if e := json.Unmarshal(b, &c); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			f := h.Table[c.Harness]
			if f == nil {
				fmt.Fprintln(os.Stderr, "no harness", c.Harness)
				os.Exit(3)
			}
			zz.Failed, zz.Skipped = []string{}, false
			zz.Run(func() { f(c.Mode, c.Dialect, c.Args, c.Texts) })
			out, _ := json.Marshal(map[string]any{"failed": zz.Failed, "skipped": zz.Skipped})
			fmt.Println(string(out))
		}
		if err != nil {
			return
		}
	}
}
