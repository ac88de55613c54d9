"""Published propeller data (Raymer fig. 13.12 and static thrust; high-power map), typed in as reference values."""
import numpy as np

J3 = np.linspace(0.2, 2.8, 14)
CP3 = np.arange(9) / 10.0
ETA3 = np.array([[float(x) for x in r.split()] for r in """
0.45 0.6 0.72 0.75 0.70 0.65 0.6 0.55 0.5 0.45 0.40 0.35 0.3 0.25
0.35 0.6 0.74 0.83 0.86 0.88 0.9 0.9 0.88 0.85 0.83 0.8 0.75 0.7
0.2 0.35 0.55 0.7 0.8 0.85 0.87 0.9 0.91 0.92 0.9 0.9 0.88 0.87
0.12 0.22 0.36 0.51 0.66 0.75 0.8 0.85 0.87 0.88 0.91 0.905 0.902 0.9
0.07 0.15 0.29 0.36 0.45 0.65 0.73 0.77 0.83 0.85 0.87 0.875 0.88 0.895
0.05 0.12 0.25 0.32 0.38 0.50 0.61 0.72 0.77 0.79 0.83 0.85 0.86 0.865
0.04 0.11 0.19 0.26 0.33 0.40 0.51 0.61 0.71 0.74 0.78 0.815 0.83 0.85
0.035 0.085 0.16 0.22 0.28 0.35 0.41 0.52 0.605 0.69 0.74 0.775 0.8 0.82
0.03 0.06 0.13 0.19 0.24 0.31 0.35 0.46 0.52 0.63 0.71 0.75 0.78 0.8""".strip().split("\n")])

J4 = np.arange(9) / 2.0
CP4 = np.arange(13) * 2.5 / 12
ETA4 = np.array([[0.0] + [float(x) for x in r.split()] for r in """
0.51 0.65 0.66 0.65 0.64 0.63 0.62 0.61
0.50 0.71 0.82 0.81 0.70 0.68 0.67 0.66
0.49 0.72 0.83 0.86 0.85 0.75 0.70 0.69
0.45 0.71 0.82 0.865 0.875 0.84 0.79 0.72
0.42 0.69 0.815 0.87 0.885 0.878 0.84 0.80
0.40 0.65 0.81 0.865 0.89 0.903 0.873 0.83
0.38 0.61 0.78 0.85 0.88 0.91 0.90 0.86
0.34 0.58 0.73 0.83 0.876 0.904 0.91 0.88
0.31 0.53 0.71 0.81 0.87 0.895 0.91 0.882
0.25 0.44 0.62 0.75 0.84 0.88 0.89 0.87
0.18 0.35 0.50 0.68 0.79 0.86 0.86 0.85
0.14 0.25 0.40 0.55 0.70 0.79 0.80 0.72
0.12 0.19 0.29 0.40 0.50 0.60 0.60 0.50""".strip().split("\n")])

_S = [2.5, 3.0, 2.55, 2.0, 1.85, 1.5, 1.25, 1.05, 0.95, 0.86, 0.79, 0.70, 0.62, 0.53, 0.45, 0.38, 0.32, 0.28, 0.24, 0.21, 0.18, 0.16, 0.14, 0.12, 0.10]
SCP3, SCT3 = np.arange(25) / 40.0, np.array(_S)
SCP4, SCT4 = np.arange(41) / 40.0, np.array(_S + [0.09] + [0.08] * 15) * np.where(np.arange(41) >= 6, 1.2, 1.0)
TABLES = {3: (CP3, J3, ETA3, SCP3, SCT3), 4: (CP4, J4, ETA4, SCP4, SCT4)}
