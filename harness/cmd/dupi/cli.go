package main

import "os"

// verifCLIMain is the process: the command line as a user gives it.
func verifCLIMain(args []string) error {
	os.Args = append([]string{"dupi"}, args...)
	main()
	return nil
}
