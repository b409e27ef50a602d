# property id -> (module, function, level, floor of obligations)
PROPS = {
    'S01': ('storage', 'arrays', 'proof', 1000),
    'S02': ('storage', 'container', 'proof', 500),
    'S03': ('storage', 'denormalise', 'proof', 300),
    'S05': ('force', 'simple', 'proof', 40),
    'S06': ('orbit', 'kepler', 'proof', 80),
    'S04': ('ode', 'rkf', 'proof', 40),
    'S10': ('ode', 'sgode', 'proof', 300),
    'S07': ('icgem', 'data', 'proof', 150),
    'S08': ('icgem', 'header', 'proof', 200),
    'S09': ('web', 'download', 'proof', 12),
    'S11': ('icgem', 'field', 'proof', 250),
    'S12': ('force', 'surface', 'proof', 20),
    'S13': ('force', 'frames', 'proof', 20),
    'S14': ('force', 'sunmoon', 'proof', 15),
    'S15': ('air', 'atmosphere', 'proof', 40),
    'S16': ('flags', 'flags', 'proof', 100),
    'S17': ('tables', 'interpolation', 'proof', 10),
    'S18': ('tables', 'factorials', 'proof', 20),
    'S19': ('tables', 'orientation', 'proof', 100),
    'S20': ('filters', 'kalman', 'proof', 15),
}
