"""What decides each property: design models, drivers and trace specifications."""
CHECKS = {}

CHECKS["C30"] = {
    "models": [{"spec": "DequeRing", "cfg": "DequeRing"}],
    "runs": [{"exe": "deque", "spec": "DequeTrace",
              "must_cover": ["PushBack", "PushFront", "PopBack", "PopFront", "Insert1", "InsertN",
                             "InsertR", "Erase", "Resize", "Clear", "AssignN", "AssignR", "Reserve",
                             "ShrinkToFit", "Copy", "Move", "Swap", "EraseValue", "EraseOdd"]}],
}

CHECKS["C01"] = {
    "models": [{"spec": "Montgomery", "cfg": "Montgomery"}],
    "thorough_models": [{"spec": "Montgomery", "cfg": "MontgomeryBig"}],
    "runs": [{"exe": "field1", "spec": "FpTrace"}],
}

CHECKS["C02"] = {
    "models": [{"spec": "TowerSelf", "cfg": "TowerSelf"}],
    "probes": ["koala_probe"],
    "runs": [{"exe": "ext", "spec": "ExtTrace"}],
}

CHECKS["C05"] = {
    "runs": [{"exe": "bigint", "spec": "BigIntTrace"}],
}

CHECKS["C03"] = {
    "models": [{"spec": "BinTowerLaws", "cfg": "BinTowerLaws"}],
    "runs": [{"exe": "bintower", "spec": "BinTowerTrace"}],
}

CHECKS["C06"] = {
    "models": [{"spec": "SqrtAlg", "cfg": "SqrtAlg"}],
    "runs": [{"exe": "sqrt", "spec": "SqrtTrace"}],
}

CHECKS["C07"] = {
    "models": [{"spec": "EcSelf", "cfg": "EcSelf", "nocoverage": True}],
    "runs": [{"exe": "ec", "spec": "EcTrace"}],
}

CHECKS["C08"] = {
    "models": [{"spec": "Pippenger", "cfg": "Pippenger", "nocoverage": True},
               {"spec": "Glv", "cfg": "Glv", "may_idle": ["Next"]}],
    "thorough_models": [{"spec": "Pippenger", "cfg": "PippengerBig", "nocoverage": True}],
    "runs": [{"exe": "msm", "spec": "MsmTrace"},
             {"exe": "msm", "spec": "MsmTrace", "build": "omp"}],
}

CHECKS["C10"] = {
    "models": [{"spec": "PolySelf", "cfg": "PolySelf"}],
    "runs": [{"exe": "poly", "spec": "PolyTrace"}, {"exe": "poly", "spec": "PolyTrace", "build": "omp"}],
}

CHECKS["C11"] = {
    "runs": [{"exe": "domain", "spec": "DomainTrace"}, {"exe": "domain", "spec": "DomainTrace", "build": "omp"}],
}

CHECKS["C12"] = {
    "runs": [{"exe": "multi", "spec": "MultiTrace"}, {"exe": "multi", "spec": "MultiTrace", "build": "omp"}],
}

CHECKS["C13"] = {
    "runs": [{"exe": "matrix", "spec": "MatrixTrace"}, {"exe": "matrix", "spec": "MatrixTrace", "build": "omp"}],
}

CHECKS["C15"] = {
    "models": [{"spec": "PoseidonSelf", "cfg": "PoseidonSelf", "nocoverage": True}],
    "runs": [{"exe": "poseidon", "spec": "PoseidonTrace", "nocoverage": True}],
}

CHECKS["C14"] = {
    "models": [{"spec": "HashesSelf", "cfg": "HashesSelf", "nocoverage": True}],
    "runs": [{"exe": "transcript", "spec": "TranscriptTrace", "nocoverage": True}],
}

CHECKS["C16"] = {
    "models": [{"spec": "MmcsModel", "cfg": "MmcsModel"}],
    "runs": [{"exe": "merkle", "spec": "MerkleTrace"}, {"exe": "merkle", "spec": "MerkleTrace", "build": "omp"}],
}

CHECKS["C29"] = {
    "runs": [{"exe": "buffer", "spec": "BufferTrace"}],
}

CHECKS["C31"] = {
    "models": [{"spec": "ParallelModel", "cfg": "ParallelModel"}],
    "runs": [{"exe": "parallel", "spec": "ParallelTrace"}, {"exe": "parallel", "spec": "ParallelTrace", "build": "omp", "concurrent": True}],
}

CHECKS["C32"] = {
    "models": [{"spec": "NumericsModel", "cfg": "NumericsModel"}],
    "runs": [{"exe": "numerics", "spec": "NumericsTrace"}],
}

CHECKS["C39"] = {
    "runs": [{"exe": "text", "spec": "TextTrace"}],
}

CHECKS["C33"] = {
    "models": [{"spec": "TimeModel", "cfg": "TimeModel"}],
    "runs": [{"exe": "time", "spec": "TimeTrace"}],
}

CHECKS["C36"] = {
    "models": [{"spec": "FlagsModel", "cfg": "FlagsModel", "nocoverage": True}],
    "runs": [{"exe": "flags", "spec": "FlagsTrace"}],
}

CHECKS["C34"] = {
    "runs": [{"exe": "files", "spec": "FilesTrace"}],
}

CHECKS["C35"] = {
    "models": [{"spec": "OwnersModel", "cfg": "OwnersModel"}],
    "runs": [{"exe": "owners", "spec": "OwnersTrace"}],
}

CHECKS["C38"] = {
    "models": [{"spec": "AllocModel", "cfg": "AllocModel"}],
    "runs": [{"exe": "alloc", "spec": "AllocTrace", "concurrent": True}],
}

CHECKS["C40"] = {
    "runs": [{"exe": "rational", "spec": "RationalTrace"}],
}

CHECKS["C24"] = {
    "models": [{"spec": "CycleModel", "cfg": "CycleModel"}],
    "runs": [{"exe": "perm", "spec": "PermutationTrace"}],
}

CHECKS["C22"] = {
    "runs": [{"exe": "expr", "spec": "CircuitTrace"}],
}

CHECKS["C23"] = {
    "runs": [{"exe": "consys", "spec": "ConSysTrace"}],
}

CHECKS["C26"] = {
    "runs": [{"exe": "selcomp", "spec": "SelCompTrace"}],
}

CHECKS["C27"] = {
    "runs": [{"exe": "arguments", "spec": "ArgumentsTrace"}, {"exe": "arguments", "spec": "ArgumentsTrace", "build": "omp"}],
}

CHECKS["C20"] = {
    "models": [{"spec": "RngSelf", "cfg": "RngSelf", "nocoverage": True}],
    "runs": [{"exe": "rng", "spec": "RngTrace"}],
}

CHECKS["C04"] = {
    "runs": [{"exe": "packed", "spec": "PackedTrace"}],
}

CHECKS["C25"] = {
    "runs": [{"exe": "layout", "spec": "LayoutTrace"}],
}

CHECKS["C19"] = {
    "models": [{"spec": "SumcheckModel", "cfg": "SumcheckModel"}],
    "runs": [{"exe": "sumcheck", "spec": "SumcheckTrace"}, {"exe": "sumcheck", "spec": "SumcheckTrace", "build": "omp"}],
}

CHECKS["C18"] = {
    "models": [{"spec": "KzgModel", "cfg": "KzgModel", "nocoverage": True}],
    "runs": [{"exe": "kzg", "spec": "KzgTrace"}, {"exe": "kzg", "spec": "KzgTrace", "build": "omp"}],
}

CHECKS["C09"] = {
    "runs": [{"exe": "pairing", "spec": "PairingTrace"}, {"exe": "pairing", "spec": "PairingTrace", "build": "omp"}],
}

CHECKS["C21"] = {
    "runs": [{"exe": "r1cs", "spec": "R1csTrace"}, {"exe": "r1cs", "spec": "R1csTrace", "build": "omp"}],
}

CHECKS["C37"] = {
    "runs": [{"exe": "capi", "spec": "CapiTrace"}],
}

NOT_APPLICABLE = {
    "C17": "The driver and the specification's replay of FRI challenges and foldings were not built; with the stand-in headers the repository's own simple_fri test fails here and the verifier aborts by CHECK on altered proofs. What FRI rests on is decided by C11, C14, C15 and C16 (see DESIGN.md).",
    "C28": "A replay of whole Halo2 proofs against the specification was not built. The parts are decided separately by C18, C22, C23, C24, C25, C26 and C27 (see DESIGN.md).",
}
GUARD = "TACHYON_VERIF_HOOKS"
ENABLE = "-DTACHYON_VERIF_HOOKS=1 (no hook has been needed so far: every driver uses public interfaces)"
