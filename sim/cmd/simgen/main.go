// Command simgen runs the repository's generators over the API descriptors
// linked into it, as protoc would, and writes what they generate.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/pluginpb"

	_ "github.com/smart-core-os/sc-api/go/traits"
)

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	req := &pluginpb.CodeGeneratorRequest{}
	seen := map[string]bool{}
	var add func(fd protoreflect.FileDescriptor)
	add = func(fd protoreflect.FileDescriptor) {
		if seen[fd.Path()] {
			return
		}
		seen[fd.Path()] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			add(fd.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
	}
	var files []protoreflect.FileDescriptor
	protoregistry.GlobalFiles.RangeFiles(func(fd protoreflect.FileDescriptor) bool {
		files = append(files, fd)
		return true
	})
	sort.Slice(files, func(i, j int) bool { return files[i].Path() < files[j].Path() })
	for _, fd := range files {
		add(fd)
		if strings.HasPrefix(string(fd.Package()), "smartcore.traits") && fd.Services().Len() > 0 {
			req.FileToGenerate = append(req.FileToGenerate, fd.Path())
		}
	}
	in, err := proto.Marshal(req)
	must(err)
	for _, plugin := range flag.Args() {
		cmd := exec.Command(plugin)
		cmd.Stdin = strings.NewReader(string(in))
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		must(err)
		res := &pluginpb.CodeGeneratorResponse{}
		must(proto.Unmarshal(b, res))
		if res.Error != nil {
			must(fmt.Errorf("%s: %s", plugin, res.GetError()))
		}
		for _, f := range res.File {
			p := filepath.Join(*out, f.GetName())
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(f.GetContent()), 0o644))
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(1)
	}
}
