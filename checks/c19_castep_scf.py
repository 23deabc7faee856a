"""C19: .castep sections: electronic minimisation and energies."""
from lib.castep_check import section_facets

FACETS = section_facets("C19", single=6000, several=2000)
