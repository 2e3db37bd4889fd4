package main

import ("fmt"; "ex/sub")

func main() { fmt.Println(sub.Run() + "\n" + sub.Run2()) }
