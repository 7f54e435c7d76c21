package main

// pipelineUnits are the functions of package pipeline under contract.
func pipelineUnits(p *Program) []*UnitDef {
	if p.Pkgs["pipeline"] == nil {
		return nil
	}
	return append(append(filterUnits(p), pipeRunUnits(p)...), append(pipeNodeUnits(p), pipeSrcUnits(p)...)...)
}
