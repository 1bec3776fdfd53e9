T=[
dict(id='stderr-captured',ok=True,units=['c26','c28','c29','c25'],edits=[('node/cardano-cli.go','	cmd.Stderr = os.Stderr\n\n	err = cmd.Run()\n\n	if err != nil {\n		return\n	}\n','	errOut := &bytes.Buffer{}\n	cmd.Stderr = errOut\n\n	err = cmd.Run()\n\n	if err != nil {\n		return nil, fmt.Errorf("%w: %s", err, errOut.String())\n	}\n')]),
dict(id='stderr-multi',ok=True,units=['c26','c28','c29','c25'],edits=[('node/cardano-cli.go','	cmd.Stderr = os.Stderr\n\n	err = cmd.Run()\n\n	if err != nil {\n		return\n	}\n','	var errOut strings.Builder\n	cmd.Stderr = &errOut\n\n	if err = cmd.Run(); err != nil {\n		return nil, fmt.Errorf("cardano-cli: %v: %s", err, strings.TrimSpace(errOut.String()))\n	}\n')]),
dict(id='json-case',ok=True,units=['c25'],edits=[('protocol/protocol.go','json:"minUTxOValue"','json:"minUTXOValue"')]),
]
