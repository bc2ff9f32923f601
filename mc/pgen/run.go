package pgen

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Build builds the plugin from the repository.
func Build(repo, out string) error {
	cmd := exec.Command("go", "build", "-trimpath", "-o", out, "./cmd/protoc-gen-golite")
	cmd.Dir = repo
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build ./cmd/protoc-gen-golite: %v\n%s", err, b)
	}
	return nil
}

// Request makes a plugin request. Files must be in topological order.
func Request(files []*dpb.FileDescriptorProto, generate []string, param string) *pluginpb.CodeGeneratorRequest {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: generate, ProtoFile: files}
	if param != "" {
		r.Parameter = &param
	}
	return r
}

// All lists the names of the files of a set.
func (s *Set) All() []string {
	var r []string
	for _, f := range s.Files {
		r = append(r, f.GetName())
	}
	return r
}

// Run runs the plugin.
func Run(bin string, req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error) {
	return RunEnv(bin, nil, req)
}

// RunEnv runs the plugin with additions to the environment.
func RunEnv(bin string, env []string, req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error) {
	in, err := proto.Marshal(req)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Dir = filepath.Dir(bin)
	cmd.Env = append(os.Environ(), env...)
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("plugin: %v\n%.3000s", err, errb.String())
	}
	resp := new(pluginpb.CodeGeneratorResponse)
	if err := proto.Unmarshal(out.Bytes(), resp); err != nil {
		return nil, fmt.Errorf("plugin output: %v", err)
	}
	if resp.Error == nil && resp.GetSupportedFeatures()&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 {
		for _, g := range req.FileToGenerate {
			for _, f := range req.ProtoFile {
				if f.GetName() == g && hasProto3Optional(f.MessageType) {
					return nil, fmt.Errorf("the plugin does not declare support for proto3 optional fields: protoc refuses to use it for %s", g)
				}
			}
		}
	}
	return resp, nil
}

func hasProto3Optional(ms []*dpb.DescriptorProto) bool {
	for _, m := range ms {
		for _, f := range m.Field {
			if f.GetProto3Optional() {
				return true
			}
		}
		if hasProto3Optional(m.NestedType) {
			return true
		}
	}
	return false
}

// Plugin is protogen's view of a request: the Go names it prescribes.
func Plugin(req *pluginpb.CodeGeneratorRequest) (*protogen.Plugin, error) {
	return protogen.Options{}.New(req)
}

// Write writes the files of a response below root/<Base dir>.
func Write(root string, resp *pluginpb.CodeGeneratorResponse) error {
	for _, f := range resp.File {
		p := filepath.Join(root, filepath.Clean("/"+f.GetName()))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(f.GetContent()), 0o644); err != nil {
			return err
		}
	}
	return nil
}
