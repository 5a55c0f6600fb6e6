"""Environment stand-in for the (absent) package `vartools`: documented contract only."""
from .linalg import cross2d
