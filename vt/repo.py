"""The code under test, imported from the repository's working tree."""
import latticeFunctions as lF
import baseConstruction as bC
import interactions as itr
import hamiltonianConstruction as hC
import davidson as dav
import initialComputations as iC
