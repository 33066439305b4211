package helpers

import "github.com/zellyn/diskii/verifrt"

// Output goes to the named file, replacing an existing one only when told to,
// or to standard output for "-".
func VC_C17_WriteOutput() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	data := make([]byte, r.PickInt(0, 1, 100, 5000))
	r.Fill(data)
	path := verifrt.Scratch("file")
	exists := r.Bool()
	old := make([]byte, r.PickInt(0, 1, 100, 9000))
	if exists {
		verifrt.PutScratch(path, old)
	}
	force := r.Bool()
	if r.Chance(4) {
		var err error
		out := verifrt.Std(nil, func() { err = WriteOutput("-", data, force) })
		verifrt.Assert("printed", err == nil)
		verifrt.AssertEq("printed", out, data)
		now, is := verifrt.GetScratch(path)
		verifrt.Assert("no file touched", is == exists && len(now) == len(old)*vs_b2i(exists))
		verifrt.Cover("printed")
		return
	}
	err := WriteOutput(path, data, force)
	verifrt.Assert("written unless that would replace a file unasked", (err == nil) == (force || !exists))
	now, is := verifrt.GetScratch(path)
	if err != nil {
		verifrt.AssertEq("the existing file stays", now, old)
		verifrt.Cover("kept")
		return
	}
	verifrt.Assert("the file is there", is)
	verifrt.AssertEq("the file holds the output, nothing else", now, data)
	back, err := FileContentsOrStdIn(path)
	verifrt.Assert("readable", err == nil)
	verifrt.AssertEq("read back", back, data)
	verifrt.Cover("written")
}

func vs_b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Input comes from the named file, or from standard input for "-".
func VC_C17_Input() {
	r := verifrt.NewRand(verifrt.U64("seed"))
	data := make([]byte, r.PickInt(0, 1, 100, 5000, 70000))
	r.Fill(data)
	var got []byte
	var err error
	verifrt.Std(data, func() { got, err = FileContentsOrStdIn("-") })
	verifrt.Assert("read", err == nil)
	verifrt.AssertEq("standard input", got, data)
	_, err = FileContentsOrStdIn(verifrt.Scratch("absent"))
	verifrt.Assert("a missing file is an error", err != nil)
	verifrt.Cover("read")
}

func vs_genFile(r *verifrt.Rand) string { return r.PickStr("file", "a-b", "--") }

// The same for every name, contents and existing file.
func VH_C17_WriteOutput() {
	genLen := func(r *verifrt.Rand) int { return r.PickInt(0, 1, 100, r.Intn(5000)) }
	n := verifrt.IntGen("length", 0, 1<<30, genLen)
	data := verifrt.Bytes("data", n)
	orig := verifrt.Clone(data)
	m := verifrt.IntGen("old length", 0, 1<<30, genLen)
	old := verifrt.Bytes("old", m)
	path := verifrt.File("file", vs_genFile)
	exists, force := verifrt.Bool("exists"), verifrt.Bool("force")
	if exists {
		verifrt.PutScratch(path, old)
	}
	stdout := verifrt.Choose("to standard output", 2) == 1
	to := path
	if stdout {
		to = "-"
	}
	var err error
	out := verifrt.Std(nil, func() { err = WriteOutput(to, data, force) })
	verifrt.NoOtherFiles("no other files appear")
	verifrt.AssertEq("the caller's data stays as it was", data, orig)
	now, is := verifrt.GetScratch(path)
	if stdout {
		verifrt.Assert("printed", err == nil)
		verifrt.AssertEq("printed", out, orig)
	} else {
		verifrt.Assert("nothing is printed", len(out) == 0)
		verifrt.Assert("written unless that would replace a file unasked", (err == nil) == (force || !exists))
	}
	if stdout || err != nil {
		verifrt.Assert("no file touched", is == exists)
		if is {
			verifrt.AssertEq("no file touched", now, old)
		}
		return
	}
	verifrt.Assert("the file is there", is)
	verifrt.AssertEq("the file holds the output, nothing else", now, orig)
	verifrt.Cover("written")
}

func VH_C17_Input() {
	n := verifrt.IntGen("length", 0, 1<<30, func(r *verifrt.Rand) int { return r.PickInt(0, 1, 100, r.Intn(5000)) })
	data := verifrt.Bytes("data", n)
	orig := verifrt.Clone(data)
	path := verifrt.File("file", vs_genFile)
	exists := verifrt.Bool("exists")
	in := data
	from := "-"
	if verifrt.Choose("from a file", 2) == 1 {
		from, in = path, nil
		if exists {
			verifrt.PutScratch(path, data)
		}
	} else {
		verifrt.Assume(exists)
	}
	var got []byte
	var err error
	verifrt.Std(in, func() { got, err = FileContentsOrStdIn(from) })
	verifrt.NoOtherFiles("no other files appear")
	verifrt.Assert("read if it is there", (err == nil) == exists)
	if err == nil {
		verifrt.AssertEq("what was read", got, orig)
		verifrt.Cover("read")
	}
}
