package main

func childMain(args []string) {
	switch args[0] {
	case "bdd":
		childBDD(args[1:])
	case "ldb":
		childLdb(args[1:])
	}
}
