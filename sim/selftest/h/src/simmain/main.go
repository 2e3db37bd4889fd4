package main

import ("fmt"; "ex/sub"; "simrt"; "simfs"; "os")

func main() {
	var last uint64
	for i := 0; i < 300; i++ {
		var s string
		seed := uint64(i/2)
		r := simrt.Exec(simrt.Config{Streams: simrt.NewStreams(seed), Race: true, AccessDen: 3, Strategy: simrt.Strategy(i/2%4), SwitchDen: 5}, func() { simrt.SetFS(simfs.New()); s = sub.Run() + "\n" + sub.Run2() })
		if i == 0 { fmt.Println(s) }
		for _, p := range r.Problems { fmt.Fprintln(os.Stderr, i, p.Kind, p.Msg) }
		if i%2 == 1 && last != r.Hash { fmt.Fprintln(os.Stderr, "NONDET", i) }
		last = r.Hash
	}
}
