"""Reference behaviour of support misalignments (property C12)."""
import numpy as np
from pySC.utils import at_wrapper, sc_tools, classdef_tools


def update_supports(self, offset_bpms, offset_magnets):
    s = at_wrapper.findspos(self.RING)
    if offset_magnets and len(self.ORD.Magnet):
        off, roll = self.support_offset_and_roll(s[self.ORD.Magnet])
        for i, ind in enumerate(self.ORD.Magnet):
            self.RING[ind].SupportOffset = off[:, i]
            self.RING[ind].SupportRoll = roll[:, i]
            self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
            if hasattr(self.RING[ind], 'MasterOf'):
                for child in self.RING[ind].MasterOf:
                    self.RING[child].T1 = self.RING[ind].T1
                    self.RING[child].T2 = self.RING[ind].T2
                    self.RING[child].R1 = self.RING[ind].R1
                    self.RING[child].R2 = self.RING[ind].R2
    if offset_bpms and len(self.ORD.BPM):
        off, roll = self.support_offset_and_roll(s[self.ORD.BPM])
        for i, ind in enumerate(self.ORD.BPM):
            self.RING[ind].SupportOffset = off[0:2, i]
            self.RING[ind].SupportRoll = roll[0, i]


def rot(ax, ay, az):
    """Rotation by az about z, then ay about y, then ax about x."""
    rx = np.array([[1, 0, 0], [0, np.cos(ax), -np.sin(ax)], [0, np.sin(ax), np.cos(ax)]])
    ry = np.array([[np.cos(ay), 0, np.sin(ay)], [0, 1, 0], [-np.sin(ay), 0, np.cos(ay)]])
    rz = np.array([[np.cos(az), -np.sin(az), 0], [np.sin(az), np.cos(az), 0], [0, 0, 1]])
    return np.dot(rx, np.dot(ry, rz))


def translation(ld, r, x, y, d):
    return np.array([ld * r[2, 0] / r[2, 2] - np.dot(d, x), r[2, 0], ld * r[2, 1] / r[2, 2] - np.dot(d, y), r[2, 1], 0, ld / r[2, 2]])


def matrix(ld, r):
    return np.array([
        [r[1, 1] / r[2, 2], ld * r[1, 1] / r[2, 2] ** 2, -r[0, 1] / r[2, 2], -ld * r[0, 1] / r[2, 2] ** 2, 0, 0],
        [0, r[0, 0], 0, r[1, 0], r[2, 0], 0],
        [-r[1, 0] / r[2, 2], -ld * r[1, 0] / r[2, 2] ** 2, r[0, 0] / r[2, 2], ld * r[0, 0] / r[2, 2] ** 2, 0, 0],
        [0, r[0, 1], 0, r[1, 1], r[2, 1], 0],
        [0, 0, 0, 0, 1, 0],
        [-r[0, 2] / r[2, 2], -ld * r[0, 2] / r[2, 2] ** 2, -r[1, 2] / r[2, 2], -ld * r[1, 2] / r[2, 2] ** 2, 0, 1]])


def update_transformation(element):
    length = getattr(element, 'Length', 0)
    theta = getattr(element, 'BendingAngle', 0)
    d = element.SupportOffset + element.MagnetOffset
    a = element.SupportRoll + element.MagnetRoll
    rx = rot(a[1], a[2], a[0])
    x, y, z = rx[:, 0], rx[:, 1], rx[:, 2]
    ld = np.dot(z, d)
    element.R1 = matrix(ld, rx)
    element.T1 = np.dot(np.linalg.inv(element.R1), translation(ld, rx, x, y, d))
    rb = rot(0, -theta, 0)
    chord = np.array([length * (np.cos(theta) - 1) / theta if theta else 0, 0, length * (np.sin(theta) / theta if theta else 1)])
    e = chord - np.dot(rx, chord) - d
    r = np.dot(rb.T, np.dot(rx.T, rb))
    ld2 = np.dot(rb[:, 2], e)
    element.R2 = matrix(ld2, r)
    element.T2 = translation(ld2, r, rb[:, 0], rb[:, 1], e)
    return element


def s_interpolation(off, s, ord1, f1, ord2, f2):
    s1, s2, C = s[ord1], s[ord2], s[-1]
    for n in range(len(s1)):
        if s1[n] == s2[n]:
            if f1[n] != f2[n]:
                raise ValueError('')
            off[np.arange(ord1[n], ord2[n] + 1)] = f1[n]
        elif s1[n] < s2[n]:
            ind = np.arange(ord1[n], ord2[n] + 1)
            off[ind] = np.interp(s[ind], np.array([s1[n], s2[n]]), np.array([f1[n], f2[n]]))
        else:
            ind = np.arange(ord2[n] + 1)
            off[ind] = np.interp(C + s[ind], np.array([s1[n], s2[n] + C]), np.array([f1[n], f2[n]]))
            off[ord1[n]:] = np.interp(s[ord1[n]:], np.array([s1[n], s2[n] + C]), np.array([f1[n], f2[n]]))
    return off


def support_offset_and_roll(self, s_locations):
    s = at_wrapper.findspos(self.RING)
    off = np.zeros((3, len(s)))
    roll = np.zeros((3, len(s)))
    for kind in ('Section', 'Plinth', 'Girder'):
        if kind in self.ORD:
            start, end = self.ORD[kind][0, :], self.ORD[kind][1, :]
            a, b = np.zeros((3, len(start))), np.zeros((3, len(end)))
            for i in range(len(start)):
                a[:, i] = off[:, start[i]] + getattr(self.RING[start[i]], f'{kind}Offset')
                b[:, i] = off[:, end[i]] + getattr(self.RING[end[i]], f'{kind}Offset')
            for i in range(3):
                off[i, :] = classdef_tools.s_interpolation(off[i, :], s, start, a[i, :], end, b[i, :])
    for kind in ('Section', 'Plinth', 'Girder'):
        for ords in self.ORD[kind].T:
            roll0 = getattr(self.RING[ords[0]], f'{kind}Roll')[0]
            length = s[ords[1]] - s[ords[0]]
            mask = np.zeros(len(s), dtype=bool)
            mask[ords[0]:ords[1]] = True
            pitch = off[1, ords[1]] - off[1, ords[0]]
            yaw = off[0, ords[1]] - off[0, ords[0]]
            if ords[0] > ords[1]:
                length = s[-1] + length
                mask[ords[0]:] = True
                mask[:ords[1] + 1] = True
            else:
                mask[ords[1]] = True
            roll[0, mask] += roll0
            roll[1, mask] = pitch / length
            roll[2, mask] = yaw / length
    if not np.array_equal(s_locations, s):
        b = np.unique(s, return_index=True)[1]
        o, r = np.empty((3, len(s_locations))), np.empty((3, len(s_locations)))
        for i in range(3):
            o[i, :] = np.interp(s_locations, s[b], off[i, b])
            r[i, :] = np.interp(s_locations, s[b], roll[i, b])
        return o, r
    return off, roll
