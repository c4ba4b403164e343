TRC="cmd/bbn/train.go"
def fb(id,*e): case("fi-"+id,"C20",*e)
def fo(id,*e): case("fiok-"+id,"OK",*e)
SV='''	ext := path.Ext(a.file)
	saveFile := strings.TrimSuffix(a.file, ext) + "-save.yml"
'''
WR='''	err = os.WriteFile(saveFile, yml, 0644)
'''
fb("trimright",(IN,SV,SV.replace("TrimSuffix","TrimRight")))
fb("replace",(IN,SV,SV.replace('strings.TrimSuffix(a.file, ext)','strings.ReplaceAll(a.file, ext, "")')))
fb("keepext",(IN,SV,'	saveFile := a.file + "-save.yml"\n'),(IN,'	"path"\n',''),(IN,'	"strings"\n',''))
fb("yml",(IN,SV,'	saveFile := strings.TrimSuffix(a.file, ".yml") + "-save.yml"\n'),(IN,'	"path"\n',''))
fb("lastdot",(IN,SV,'	saveFile := a.file\n	if i := strings.LastIndex(saveFile, "."); i >= 0 {\n		saveFile = saveFile[:i]\n	}\n	saveFile += "-save.yml"\n'),(IN,'	"path"\n',''))
fb("base",(IN,SV,'	base := path.Base(a.file)\n	saveFile := strings.TrimSuffix(base, path.Ext(base)) + "-save.yml"\n'))
fb("cut",(IN,SV,'	stem, _, _ := strings.Cut(a.file, ".")\n	saveFile := stem + "-save.yml"\n'),(IN,'	"path"\n',''))
fb("overwrite",(IN,SV,SV.replace('+ "-save.yml"','+ ".yml"')))
fb("append",(IN,WR,'''	var f *os.File
	f, err = os.OpenFile(saveFile, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	if _, err = f.Write(yml); err == nil {
		err = f.Close()
	}
'''))
fb("startsave",(AP,"	a.createCanvas()\n	a.createWidgets()","	a.saveNetwork()\n	a.createCanvas()\n	a.createWidgets()"))
fb("trainwrite",(TT,"	return train.UpdateNetwork()",'	res, err := train.UpdateNetwork()\n	if err == nil {\n		yml, _ := bbn.ToYAML(res)\n		_ = os.WriteFile(dataFile+".yml", yml, 0644)\n	}\n	return res, err'))
fb("rm",(NW,"	data, err := os.ReadFile(path)","	data, err := os.ReadFile(path)\n	_ = os.Chmod(path, 0444)"))
fb("key",(IN,"	} else if event.Key() == tcell.KeyCtrlS {\n		a.saveNetwork()","	} else if event.Key() == tcell.KeyCtrlS || event.Rune() == 'x' {\n		a.saveNetwork()"))
fb("esc",(IN,"		// Exit program.\n","		// Exit program.\n		a.saveNetwork()\n"))
fb("untrained",(TRC,"			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n\n			fmt.Println(string(yml))",'			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n\n			cmd.Println(string(yml))'))
fb("fresh",(TRC,"			yml, err := bbn.ToYAML(net)",'			if net, err = bbn.FromFile(netFile); err != nil {\n				return err\n			}\n			yml, err := bbn.ToYAML(net)'))
fb("extra",(TRC,"			fmt.Println(string(yml))",'			fmt.Println("trained network:")\n			fmt.Println(string(yml))'))
fb("noerr",(TRC,"			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n\n			fmt.Println(string(yml))","			yml, err := bbn.ToYAML(net)\n			fmt.Println(string(yml))\n			if err != nil {\n				return err\n			}\n"))
fb("net",(IN,"	yml, err := bbn.ToYAML(a.network)","	net, err := bbn.FromFile(a.file)\n	if err != nil {\n		panic(err)\n	}\n	yml, err := bbn.ToYAML(net)"))
fb("half",(IN,WR,"	err = os.WriteFile(saveFile, yml[:len(yml)-1], 0644)\n"))
fo("sprintf",(IN,SV,'	saveFile := fmt.Sprintf("%s-save.yml", strings.TrimSuffix(a.file, path.Ext(a.file)))\n'),(IN,'import (\n','import (\n	"fmt"\n'))
fo("slice",(IN,SV,'	saveFile := a.file[:len(a.file)-len(path.Ext(a.file))] + "-save.yml"\n'),(IN,'	"strings"\n',''))
fo("filepath",(IN,SV,SV.replace("path.Ext","filepath.Ext")),(IN,'	"path"\n','	"path/filepath"\n'))
fo("helper",(IN,SV,'	saveFile := savePath(a.file)\n'),(IN,"func (a *App) saveNetwork() {",'func savePath(file string) string {\n	ext := path.Ext(file)\n	base := strings.TrimSuffix(file, ext)\n	return base + "-save.yml"\n}\n\nfunc (a *App) saveNetwork() {'))
fo("join",(IN,SV,'	dir, base := path.Split(a.file)\n	saveFile := dir + strings.TrimSuffix(base, path.Ext(base)) + "-save.yml"\n'))
fo("create",(IN,WR,'''	var f *os.File
	f, err = os.Create(saveFile)
	if err != nil {
		panic(err)
	}
	if _, err = f.Write(yml); err == nil {
		err = f.Close()
	}
'''))
fo("if",(IN,WR+"	if err != nil {","	if err = os.WriteFile(saveFile, yml, 0o644); err != nil {"))
fo("inplace",(TRC,"net, err = tui.TrainNetwork(net, nodes, datafile, noData, delimRunes[0])","_, err = tui.TrainNetwork(net, nodes, datafile, noData, delimRunes[0])"))
fo("print",(TRC,"fmt.Println(string(yml))",'fmt.Print(string(yml), "\\n")'))
fo("printf",(TRC,"fmt.Println(string(yml))",'fmt.Printf("%s\\n", yml)'))
fo("fprint",(TRC,"fmt.Println(string(yml))",'fmt.Fprintln(cmd.OutOrStdout(), string(yml))'))
fo("fn",(TRC,"			fmt.Println(string(yml))\n			return nil",'			return show(yml)'),(TRC,"func trainCommand","func show(yml []byte) error {\n	_, err := fmt.Println(string(yml))\n	return err\n}\n\nfunc trainCommand"))
fo("handler",(IN,"	} else if event.Key() == tcell.KeyCtrlS {\n		a.saveNetwork()\n		return nil\n	} else {","	} else if event.Key() == tcell.KeyCtrlS {\n		func() { a.saveNetwork() }()\n		return nil\n	} else {"))
fo("saveerr",(IN,"	} else if event.Key() == tcell.KeyCtrlS {\n		a.saveNetwork()","	} else if event.Key() == tcell.KeyCtrlS {\n		if err := a.saveNetwork(); err != nil {\n			panic(err)\n		}"),(IN,"func (a *App) saveNetwork() {\n	yml, err := bbn.ToYAML(a.network)\n	if err != nil {\n		panic(err)\n	}","func (a *App) saveNetwork() error {\n	yml, err := bbn.ToYAML(a.network)\n	if err != nil {\n		return err\n	}"),(IN,WR+"	if err != nil {\n		panic(err)\n	}\n","	return os.WriteFile(saveFile, yml, 0644)\n"))
