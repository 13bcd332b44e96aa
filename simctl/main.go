// simctl builds the simulation worker from /repo's working tree and runs
// the checks.
//
//	simctl build
//	simctl check <property> [quick|thorough]
//	simctl replay <file>
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: simctl build | check <property> [tier] | replay <file>")
		os.Exit(2)
	}
	verif, repo := os.Getenv("SIM_VERIF"), os.Getenv("SIM_REPO")
	if verif == "" {
		verif = "/verif"
	}
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "build":
		b, err := build(verif, repo, "")
		if err != nil {
			fmt.Println("BUILD ERROR:", err)
			os.Exit(2)
		}
		fmt.Println(b.Bin, b.Sites, b.Files)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(verif, repo, os.Args[2], tier))
	case "replay":
		os.Exit(replay(verif, repo, os.Args[2]))
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}
