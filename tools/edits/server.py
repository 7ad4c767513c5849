S = "wasm/aqlparse/server/main.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
OPEN = "	return os.OpenFile(d.files[filename], os.O_RDONLY, 0o444)"
INDEX = "			f, err := os.OpenFile(filepath.Join(os.Args[1], \"index.html\"), os.O_RDONLY, 0o444)\n			if err != nil {\n				panic(\"error opening index.html: \" + err.Error())\n			}\n			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", time.Now(), f)\n			return\n"

bug("b-srv-fallback", "W01", (S, OPEN, "	loc, ok := d.files[filename]\n	if !ok {\n		loc = filepath.Join(os.Args[1], filename)\n	}\n	return os.OpenFile(loc, os.O_RDONLY, 0o444)"))
bug("b-srv-name", "W01", (S, OPEN, "	if _, ok := d.files[filename]; !ok {\n		return nil, fs.ErrNotExist\n	}\n	return os.OpenFile(filename, os.O_RDONLY, 0o444)"))
bug("b-srv-dir", "W01", (S, "http.FileServer(http.FS(wasmfs))", "http.FileServer(http.Dir(os.Args[1]))"), (S, "	fserv := ", "	_ = wasmfs\n	fserv := "))
bug("b-srv-dirfs", "W01", (S, "http.FileServer(http.FS(wasmfs))", "http.FileServer(http.FS(os.DirFS(os.Args[1])))"), (S, "	fserv := ", "	_ = wasmfs\n	fserv := "))
bug("b-srv-base", "W01", (S, OPEN, "	loc := d.files[filename]\n	if loc == \"\" {\n		for _, l := range d.files {\n			loc = filepath.Join(filepath.Dir(l), filepath.Base(filename))\n			break\n		}\n	}\n	return os.OpenFile(loc, os.O_RDONLY, 0o444)"))
bug("b-srv-index-path", "W01", (S, "filepath.Join(os.Args[1], \"index.html\"), os.O_RDONLY", "filepath.Join(os.Args[1], r.URL.Path, \"index.html\"), os.O_RDONLY"))
bug("b-srv-index-query", "W01", (S, "			f, err := os.OpenFile(filepath.Join(os.Args[1], \"index.html\"), os.O_RDONLY", "			page := \"index.html\"\n			if p := r.URL.Query().Get(\"page\"); p != \"\" {\n				page = p\n			}\n			f, err := os.OpenFile(filepath.Join(os.Args[1], page), os.O_RDONLY"))
bug("b-srv-servefile", "W01", (S, "		fserv.ServeHTTP(w, r)\n", "		if filepath.Ext(r.URL.Path) == \".html\" {\n			http.ServeFile(w, r, filepath.Join(os.Args[1], r.URL.Path))\n			return\n		}\n		fserv.ServeHTTP(w, r)\n"))
bug("b-srv-noclose", "W01", (S, "			defer f.Close()\n", ""))
bug("b-srv-close-head", "W01", (S, "			defer f.Close()\n", "			if r.Method == http.MethodHead {\n				return\n			}\n			defer f.Close()\n"))
bug("b-srv-stat-leak", "W01", (S, "			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", time.Now(), f)\n", "			fi, err := f.Stat()\n			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", fi.ModTime(), f)\n"), (S, "	\"time\"\n", ""))
bug("b-srv-stat-panic", "W01", (S, "			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", time.Now(), f)\n", "			fi, err := f.Stat()\n			if err != nil {\n				panic(err)\n			}\n			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", fi.ModTime(), f)\n"), (S, "	\"time\"\n", ""))
bug("b-srv-open-leak", "W01", (S, OPEN, "	f, err := os.OpenFile(d.files[filename], os.O_RDONLY, 0o444)\n	if err != nil {\n		return nil, err\n	}\n	fi, err := f.Stat()\n	if err != nil || fi.IsDir() {\n		return nil, fs.ErrNotExist\n	}\n	return f, nil"))
bug("b-srv-open-closed", "W01", (S, OPEN, "	f, err := os.OpenFile(d.files[filename], os.O_RDONLY, 0o444)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return f, nil"))
bug("b-srv-probe", "W01", (S, OPEN, "	if f, err := os.Open(d.files[filename]); err != nil {\n		return f, err\n	}\n" + OPEN))
bug("b-srv-register", "W01", (S, "		fserv.ServeHTTP(w, r)\n", "		if filepath.Ext(r.URL.Path) == \".css\" {\n			wasmfs.AddFile(filepath.Join(os.Args[1], r.URL.Path))\n		}\n		fserv.ServeHTTP(w, r)\n"))
bug("b-srv-empty-dir", "W01", (S, OPEN, "	return os.OpenFile(filepath.Join(os.Args[1], filepath.Base(d.files[filename])), os.O_RDONLY, 0o444)"))

ref("r-srv-ok", "W01", (S, OPEN, "	loc, ok := d.files[filename]\n	if !ok {\n		return nil, fs.ErrNotExist\n	}\n	return os.Open(loc)"))
ref("r-srv-index-fn", "W01", (S, INDEX, "			serveIndex(w, r)\n			return\n"), (S, "func main() {", "func serveIndex(w http.ResponseWriter, r *http.Request) {\n	f, err := os.Open(filepath.Join(os.Args[1], \"index.html\"))\n	if err != nil {\n		panic(\"error opening index.html: \" + err.Error())\n	}\n	defer f.Close()\n	http.ServeContent(w, r, \"index.html\", time.Now(), f)\n}\n\nfunc main() {"))
ref("r-srv-loop", "W01", (S, "	wasmfs.AddFile(filepath.Join(os.Args[1], \"wasm_exec.js\"))\n	wasmfs.AddFile(filepath.Join(os.Args[1], \"hwt.css\"))\n	wasmfs.AddFile(filepath.Join(os.Args[1], \"style.css\"))\n	wasmfs.AddFile(filepath.Join(os.Args[1], \"aqlparse.wasm\"))\n", "	for _, name := range []string{\"wasm_exec.js\", \"hwt.css\", \"style.css\", \"aqlparse.wasm\"} {\n		wasmfs.AddFile(filepath.Join(os.Args[1], name))\n	}\n"))
ref("r-srv-dir-var", "W01", (S, "	wasmfs := new(DiskFS)\n", "	dir := os.Args[1]\n	index := filepath.Join(dir, \"index.html\")\n	wasmfs := &DiskFS{files: map[string]string{}}\n"), (S, "os.OpenFile(filepath.Join(os.Args[1], \"index.html\"), os.O_RDONLY, 0o444)", "os.OpenFile(index, os.O_RDONLY, 0o444)"))
ref("r-srv-close-after", "W01", (S, "			defer f.Close()\n			http.ServeContent(w, r, \"index.html\", time.Now(), f)\n", "			http.ServeContent(w, r, \"index.html\", time.Now(), f)\n			f.Close()\n"))
ref("r-srv-servefile", "W01", (S, INDEX, "			http.ServeFile(w, r, filepath.Join(os.Args[1], \"index.html\"))\n			return\n"), (S, "	\"time\"\n", ""))
ref("r-srv-mux", "W01", (S, "	http.HandleFunc(\"/\", ", "	mux := http.NewServeMux()\n	mux.HandleFunc(\"/\", "), (S, "http.ListenAndServe(port, nil)", "http.ListenAndServe(port, mux)"))
ref("r-srv-handler", "W01", (S, "	http.HandleFunc(\"/\", func(w http.ResponseWriter, r *http.Request) {", "	http.Handle(\"/\", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {"), (S, "		fserv.ServeHTTP(w, r)\n	})", "		fserv.ServeHTTP(w, r)\n	}))"))
ref("r-srv-else", "W01", (S, "		if r.URL.Path == \"/\" {\n" + INDEX + "		}\n		fserv.ServeHTTP(w, r)\n", "		if r.URL.Path != \"/\" {\n			fserv.ServeHTTP(w, r)\n			return\n		}\n" + INDEX.replace("			return\n", "").replace("\n\t\t\t", "\n\t\t").replace("\t\t\tf,", "\t\tf,", 1)))
ref("r-srv-http-error", "W01", (S, "				panic(\"error opening index.html: \" + err.Error())\n", "				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n"))
ref("r-srv-defer-fn", "W01", (S, "			defer f.Close()\n", "			defer func() {\n				if err := f.Close(); err != nil {\n					log.Println(err)\n				}\n			}()\n"))
ref("r-srv-open-check", "W01", (S, OPEN, "	f, err := os.OpenFile(d.files[filename], os.O_RDONLY, 0o444)\n	if err != nil {\n		return nil, err\n	}\n	fi, err := f.Stat()\n	if err != nil {\n		f.Close()\n		return nil, err\n	}\n	log.Printf(\"%d bytes\", fi.Size())\n	return f, nil"))
