#!/usr/bin/env python3
"""Writes the tables of routers and wrappers used by C12 (run by hand; the tables are committed).
mkrouters.py REPO-OR-GENERATED-DIR OUT gen|checked"""
import sys, re, glob, os
root, out, kind = sys.argv[1:4]
rows, imps = [], {}
for f in sorted(glob.glob(root + "/pkg/trait/*/*_router.pb.go")):
    s = open(f).read()
    pkg = os.path.basename(os.path.dirname(f))
    router = re.search(r"type (\w+Router) struct", s).group(1)
    client = re.search(r"^func With(\w+)Factory", s, re.M).group(1)
    api = re.search(r"func\(name string\) \((\w+\.)?%s, error\)" % client, s).group(1)
    api = (api or pkg + ".")[:-1]
    service = client[:-len("Client")]
    if kind == "gen" and api != "traits":
        continue
    prefix = "g" if kind == "gen" else ""
    imps[prefix + pkg] = ("github.com/smart-core-os/sc-golang/verifsim/gen/" if kind == "gen" else "github.com/smart-core-os/sc-golang/pkg/trait/") + pkg
    rows.append((prefix + pkg, router, api, service))
pkgname = "gentable" if kind == "gen" else "props"
p = "props." if kind == "gen" else ""
o = ["// Code generated by tools/mkrouters.py. DO NOT EDIT.\n", "package %s\n" % pkgname, "import ("]
o += ['\t"google.golang.org/grpc"', "", '\t"github.com/smart-core-os/sc-api/go/traits"', '\t"github.com/smart-core-os/sc-golang/pkg/router"']
if kind == "gen":
    o.append('\t"github.com/smart-core-os/sc-golang/verifsim/props"')
for a, i in sorted(imps.items()):
    o.append('\t%s "%s"' % (a, i) if kind == "gen" else '\t"%s"' % i)
o.append(")\n")
o.append("func init() {\n\t%sRegisterRouters([]%sRouterCase{" % (p, p))
for pkg, router, api, service in rows:
    name = ("generated " if kind == "gen" else "") + pkg.removeprefix("g" if kind == "gen" else "") + "." + router
    wrap = "Wrap" + router[:-len("Router")]
    o.append('''\t\t{
			Name: "%(name)s", Service: &%(api)s.%(s)s_ServiceDesc, Client: "%(s)sClient",
			New:       func(opts ...router.Option) router.Router { return %(pkg)s.New%(router)s(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return %(api)s.New%(s)sClient(cc) },
			Wrap:      func(srv any) any { return %(pkg)s.%(wrap)s(srv.(%(api)s.%(s)sServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return %(pkg)s.With%(s)sClientFactory(func(name string) (%(api)s.%(s)sClient, error) {
					c, err := f(name)
					cc, _ := c.(%(api)s.%(s)sClient)
					return cc, err
				})
			},
		},''' % dict(name=name, api=api, s=service, pkg=pkg, router=router, wrap=wrap))
o.append("\t})\n}\n")
open(out, "w").write("\n".join(o))
