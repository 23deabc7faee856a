FIXED += 'C18 cf25fe4 k-points beyond the ninth were dropped from k-point lists' + '\n'
FIXED += 'C18 19e802d symmetry related atoms of tagged species crashed the parser' + '\n'
FIXED += 'C18 fa66317 three body and global pair parameters without a unit lost their last digit' + '\n'
FIXED += 'C18 f5e7231 DFT-D C6/R0 of tagged species were lost' + '\n'
FIXED += 'C23 7bfed6e bonds with zero spin lost it' + '\n'
FIXED += 'C23 dbe5943 d and f orbitals were dropped from orbital populations' + '\n'
FIXED += 'C19 99cd704 fixed occupancy SCF: initial cycle dropped, energy gain reported as Fermi energy' + '\n'
FIXED += 'C19 eb70f9a finite basis set corrections with ten or more cut-off energies were not recognised' + '\n'
FIXED += 'C17 88f3609 the line after a one-line warning was swallowed' + '\n'
FIXED += 'C26 6af80c7 geometry optimisations could not be read with FINAL_CONFIG but no GEOM_OPT (Filters.LOW)' + '\n'
FIXED += 'C18 67b6e1d three body pair parameters of tagged potentials crashed the parser' + '\n'
FIXED += 'C18 c9900dc two body pair parameters without a unit lost their last digit' + '\n'
FIXED += 'C26 1bc64bd MD and geometry iterations were read at the default level of detail whatever the caller selected (no SCF with FULL)' + '\n'
FIXED += 'C26 902518f without SCF selected, the preliminary energies of a finite basis set correction were reported as final energies' + '\n'
FIXED += "C19 6e07066 data (warnings) printed during a finite basis set correction replaced what had been read before, and ignored the caller's filters" + '\n'
FIXED += 'C26 7fbbbed warnings during a finite basis set correction were dropped when SCF was not selected' + '\n'
FIXED += "C19 ef3410a delta SCF state files whose name contains 'spin' or 'nr.' were not reported and corrupted the state" + '\n'
FIXED += "C27 e79df3e parse_single(file, 'epme_bin') could not find its parser, and an unknown parser name silently fell back to the extension" + '\n'
FIXED += 'C28 484eef5 parse_all with more than one pathlib.Path failed with TypeError in the JSON dumper' + '\n'
FIXED += 'C29 cc33d37 -f yaml (README) was refused by the argument parser' + '\n'
FIXED += 'C29 60dca4d seed run.2 read run.castep, run.param... instead of run.2.castep' + '\n'
FIXED += 'C29 6d0a0bb NotImplementedError for absolute seeds, and error files of seeds in another directory (or with glob characters) missed' + '\n'
FIXED += 'C30 c8bc01f get_generated_files named on-the-fly potentials after an arbitrary functional of a mixture (different in each process), in lower case' + '\n'
FIXED += 'C30 4af3825 get_generated_files ignored positions_abs' + '\n'
FIXED += "C30 21be920 get_generated_files('run.2') read run.param and predicted run.castep" + '\n'
FIXED += 'C30 6345057 get_generated_files missed .hug/.pes for md_ensemble NVHUG, geom_method PES' + '\n'
FIXED += "C31 90a5bc9 a .bands file ending within the first spin of a k-point reported its bands as 'band' with spin_comp False" + '\n'
FIXED += 'C10 c9bf295 atoms with a tagged species (H:1) were dropped from the coordinates of .phonon, .phonon_dos, .efield and .elastic headers, and a tagged column of .phonon_dos was an error' + '\n'
FIXED += 'C11 5c4b5c2 the digits of a species tag (H:0) were reported among the internal strain components' + '\n'
FIXED += 'C33 4a635f1 FileWrapper.lineno grew with every read at the end of the file' + '\n'
FIXED += 'C33 803daac strip_comments with a comment character such as * or | was an error or cut at every character' + '\n'
FIXED += 'C33 ba406e7 Block.asstringio put a blank line after every line' + '\n'
FIXED += 'C33 44249b6 Block.get_lines consumed (and lost) the line after the block, and refused the last lines of a file; line numbers of MDGeomParser drifted by one per frame' + '\n'
FIXED += "C34 c5ab9fa flatten_dict(separator='.') joined sequence indices with '_'" + '\n'
FIXED += "C34 4aaa7c5 parse_int_or_float('-7') was a float, and an iterator gave nothing at all" + '\n'
FIXED += 'C34 9c240e2 json_safe left complex numbers and compound keys inside sequences as they were' + '\n'
FIXED += 'C32 82ca8a3 the order of the columns of an .xrd_sf file in the report and in every dump changed from run to run with the hash seed' + '\n'
FIXED += 'C27 1acbab9 parsers of .castep, .md and .geom closed the handle their caller passed in, unlike all others' + '\n'
FIXED += 'C03 066c8b2 the units of positions_abs_product and positions_abs_intermediate blocks were not reported' + '\n'
FIXED += 'C04 9226087 a devel_code value containing : or = (a=b, 12:30) raised ValueError' + '\n'
FIXED += 'C04 da43309 a devel_code flag with a digit in its name was dropped' + '\n'
FIXED += 'C04 a6b4f95 a devel_code pair whose name ends in the title of a later block (ael:0 ... EL: :ENDEL) was read as that block' + '\n'
FIXED += 'C35 33a22f2 refusing a missing trajectory also raised an AttributeError from __del__' + '\n'
FIXED += 'C07 b0394ed with a grid of one point along x the meta-GGA part was merged into the potential' + '\n'
FIXED += 'C36 09fbbc6 a line of spaces: time grew with the fourth power of its length (200 spaces took 4 s, 400 a minute), as the pattern of a table heading without a border repeated optional space four times on each side' + '\n'
FIXED += 'C37 180d5b0 messages about a file whose name holds a percent sign were lost (or mixed up): the name was part of the format' + '\n'
FIXED += "C03 8f27ec6 'MIXTURE:(1 0.5)' or 'MIXTURE:( 1 0.5 )' in positions: the mixture was dropped without a word" + '\n'
FIXED += "C03 a0325cd a first row with a single parameter ('C C6:1.0') in sedc_custom_params was taken for the units" + '\n'
FIXED += 'C02 80a311c a logical keyword without a value (SYMMETRY_GENERATE alone) was dropped' + '\n'
FIXED += 'C30 c48dbe6 without a cell the pattern of the printed pair potentials (seed_*_.pot) matched none of the files written (seed_A_B.pot)' + '\n'
