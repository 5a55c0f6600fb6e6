from vartools.dynamical_systems import (
    Dynamics, DynamicalSystem, LinearSystem, ConstantValue, LocallyRotated, CircularStable,
    QuadraticAxisConvergence, WavyRotatedDynamics,
)
