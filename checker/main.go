package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	id := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "verification directory")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	if *id == "" {
		fmt.Println("usage: checker -property Cxx")
		os.Exit(2)
	}
	os.Exit(runCheck(*id, *tier, *root))
}
