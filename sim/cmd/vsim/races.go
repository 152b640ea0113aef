package main

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// raced lists the properties whose runs are watched by Go's race detector.
var raced = map[string]bool{"C16": os.Getenv("VSIM_NORACE") == ""}

var accessRe = regexp.MustCompile(`(?i)^(previous )?(atomic )?(read|write) at 0x[0-9a-f]+ by `)

// races reads the reports the race detector left in dir. A report counts if
// both accesses were made by the code under test.
func races(dir string) (l []Violation) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	sort.Strings(files)
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			var who []string
			for _, par := range strings.Split(strings.TrimSpace(rep), "\n\n") {
				ls := strings.Split(par, "\n")
				for len(ls) > 0 && !accessRe.MatchString(ls[0]) {
					ls = ls[1:]
				}
				if len(ls) == 0 {
					continue
				}
				kind := strings.ToLower(accessRe.FindStringSubmatch(ls[0])[3])
				fn := ""
				for _, l := range ls[1:] {
					if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
						continue // a position
					}
					n := strings.TrimSpace(l)
					if k := strings.LastIndex(n, "("); k > 0 {
						n = n[:k]
					}
					if n == "main.(*simConn).Write" || n == "main.(*simConn).Read" || n == "main.raceReads" || n == "main.raceWrites" {
						continue // for its caller
					}
					if strings.HasPrefix(n, "main.") || strings.HasPrefix(n, repoPkg) {
						fn = n
						break
					}
				}
				who = append(who, kind+" in "+fn)
			}
			if len(who) != 2 {
				continue
			}
			ours, apps := true, true
			for _, n := range who {
				app := strings.HasSuffix(n, "main.appReads") || strings.HasSuffix(n, "main.appWrites")
				ours = ours && (app || strings.Contains(n, " in "+repoPkg) && !strings.Contains(n, "/vsim/"))
				apps = apps && app
			}
			if !ours || apps {
				continue
			}
			sort.Strings(who)
			for i := range who {
				who[i] = strings.NewReplacer("main.appReads", "the application", "main.appWrites", "the application").Replace(who[i])
			}
			c := "data race: " + strings.ReplaceAll(strings.Join(who, ", "), repoPkg, "zmq4")
			if !seen[c] {
				seen[c] = true
				l = append(l, Violation{Class: c, Detail: head(strings.TrimSpace(addrRe.ReplaceAllString(rep, "0x..")), 3000)})
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Class < l[j].Class })
	return
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)
