"""C23: .castep sections: population analyses."""
from lib.castep_check import section_facets

FACETS = section_facets("C23", single=6000, several=2000)
