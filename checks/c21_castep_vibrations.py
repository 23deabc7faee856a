"""C21: .castep sections: phonons, Raman, thermodynamics, Born charges."""
from lib.castep_check import section_facets

FACETS = section_facets("C21", single=6000, several=2000)
