package packages

import "go/types"

// SimDriver answers loader requests in the simulation.
var SimDriver func(cfg *Config, patterns []string) (roots []string, pkgs []*Package, sizes *types.StdSizes, err error)

// SimStd is the list of standard packages.
func SimStd() []string { return simStd }

func goListDriver(cfg *Config, patterns ...string) (*driverResponse, error) {
	if len(patterns) == 1 && patterns[0] == "std" {
		r := &driverResponse{Sizes: &types.StdSizes{WordSize: 8, MaxAlign: 8}}
		for _, p := range simStd {
			name := p
			for i := len(p) - 1; i >= 0; i-- {
				if p[i] == '/' {
					name = p[i+1:]
					break
				}
			}
			r.Roots = append(r.Roots, p)
			r.Packages = append(r.Packages, &Package{ID: p, Name: name, PkgPath: p})
		}
		return r, nil
	}
	if SimDriver == nil {
		return realGoListDriver(cfg, patterns...)
	}
	roots, pkgs, sizes, err := SimDriver(cfg, patterns)
	if err != nil {
		return nil, err
	}
	return &driverResponse{Sizes: sizes, Roots: roots, Packages: pkgs}, nil
}
