"""Reference behaviour of the lattice switches (property C15)."""
import numpy as np

PLAIN = ('BndMPoleSymplectic4Pass', 'BndMPoleSymplectic4E2Pass', 'StrMPoleSymplectic4Pass')
RADIATING = ('BndMPoleSymplectic4RadPass', 'BndMPoleSymplectic4E2RadPass', 'StrMPoleSymplectic4RadPass')


def switch_rf(ring, ords, state):
    for i in np.ravel(np.array([ords], dtype=int)):
        if hasattr(ring[i], 'Frequency'):
            ring[i].PassMethod = 'RFCavityPass' if state else 'IdentityPass'
    return ring


def switch_cavity_and_radiation(ring, *args):
    for a in args:
        if a not in ('radiationoff', 'radiationon', 'cavityoff', 'cavityon'):
            raise ValueError
    if 'radiationoff' in args:
        for i in range(len(ring)):
            if ring[i].PassMethod in RADIATING:
                ring[i].PassMethod = ring[i].PassMethod.replace('Rad', '')
    elif 'radiationon' in args:
        for i in range(len(ring)):
            if ring[i].PassMethod in PLAIN:
                ring[i].PassMethod = ring[i].PassMethod.replace('Pass', 'RadPass')
    if 'cavityoff' in args:
        switch_rf(ring, np.arange(len(ring)), False)
    elif 'cavityon' in args:
        switch_rf(ring, np.arange(len(ring)), True)
    return ring
