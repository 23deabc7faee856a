finding("C17", "memory_all_rows", {"rows": [["Baseline code, static data and system overhead", "239.0", "0.0"]]},
        "memory estimate rows with punctuation in their name (Baseline code, static data...) are dropped (pinned by test_castep_parser.py)")
finding("C18", "kpoint_z", {"seed": 12345, "n": 1},
        "k-point lists report the x component in place of z (pinned by test_castep_parser.py)")
finding("C22", "md_memory", {"before": {"rows": {"Model and support data": 3}}, "inside": {"rows": {"Model and support data": 4}}},
        "a memory estimate inside an MD iteration replaces those found before it (pinned by test/data_files/si8-md.json)")
finding("C22", "constraint_same_atom", {"atom": 1},
        "an internal constraint between an atom and its own periodic image keeps one of the two ends (report is keyed by atom index)")
finding("C24", "berry_tables", {"seed": 12345, "verbose": [[1, 1]]},
        "verbose Berry phase output: tables printed in several units overwrite one another (pinned by test_castep_parser.py)")
finding("C18", "pspot_detail", {"spec": "H", "seed": 5, "charge": 1, "theory": "LDA", "solver": "ZORA", "ref": ["2s"], "defn": [["loc", 0, None, "qc", 0]], "aug": False, "core": False,
        "detail": {"channel": 3, "poly": "", "core": "1.8", "inner": ["1.8", "0.6"], "cut": ["12", "14", "16"], "beta": [{"n": 3, "l": 0, "proj": []}],
                   "adj": None, "test": None, "flags": ["qc=7"], "order": ["adj", "test", "flags"]}},
        "pseudopotential reports: the quoted definition string is not reported (pinned by test_castep_parser.py)")
