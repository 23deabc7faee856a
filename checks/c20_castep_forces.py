"""C20: .castep sections: forces and stresses."""
from lib.castep_check import section_facets

FACETS = section_facets("C20", single=6000, several=2000)
