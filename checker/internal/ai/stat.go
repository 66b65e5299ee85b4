package ai

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
)

var statOn = os.Getenv("AISTAT") != ""
var stats = map[string]*blockStat{}

type blockStat struct {
	n    int
	feat map[string]int
}

var symNum = regexp.MustCompile(`[#!]\d+`)

func (e *Engine) stat(st *State) {
	top := st.Top()
	k := fmt.Sprintf("%s/b%d frames=%d", top.Fn.Name(), top.Block.Index, len(st.Frames))
	s := stats[k]
	if s == nil {
		s = &blockStat{feat: map[string]int{}}
		stats[k] = s
	}
	s.n++
	seen := map[string]bool{}
	for _, l := range strings.Split(st.Dump(), "\n") {
		l = symNum.ReplaceAllString(l, "")
		if !seen[l] {
			seen[l] = true
			s.feat[l]++
		}
	}
}

// PrintStats shows what the states of the busiest blocks differ in.
func PrintStats(blocks, feats int) {
	var ks []string
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return stats[ks[i]].n > stats[ks[j]].n })
	for i, k := range ks {
		if i >= 25 {
			break
		}
		fmt.Println("BLOCK", k, stats[k].n)
	}
	for i, k := range ks {
		if i >= blocks {
			break
		}
		s := stats[k]
		fmt.Println("== ", k, s.n, "features", len(s.feat))
		var fs []string
		for f, c := range s.feat {
			if c < s.n {
				fs = append(fs, f)
			}
		}
		h := func(f string) float64 {
			p := float64(s.feat[f]) / float64(s.n)
			return p * (1 - p)
		}
		sort.Slice(fs, func(i, j int) bool { return h(fs[i]) > h(fs[j]) })
		for j, f := range fs {
			if j >= feats {
				break
			}
			if len(f) > 170 {
				f = f[:170]
			}
			fmt.Printf("  %5.1f%% %s\n", 100*float64(s.feat[f])/float64(s.n), strings.TrimSpace(f))
		}
	}
}
