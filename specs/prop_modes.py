"""C17 Mode S decoder, C18 Mode S detectors"""
from runner import Unit, Native
import modes_spec as M

KEEP = [r'^mode_s_checksum$', r'^mode_s_decode$', '^fix_single', '^fix_two', '^brute_force', '^icao', '^add_recently', '^mode_s_msg_len', '^decode_ac', '^(mm|st|ref)__']
MODS = {'modes': dict(src='modes.c', keep=KEEP, lang='c')}
SRC = ['desktop_blocks/adsb/modes.c', 'desktop_blocks/adsb/modes_2400.c']


def decoder(tier):
    us = [Unit('parity/table', 'modes', M.verify_columns, fp='uf'), Unit('seen', 'modes', M.verify_seen, fp='uf')]
    for n in (112, 56):
        us += [Unit('repair2/%d' % n, 'modes', M.verify_two, (n,), fp='uf', timeout=700), Unit('repair1/%d' % n, 'modes', M.verify_single, (n,), fp='uf'),
               Unit('parity/%d' % n, 'modes', M.verify_checksum, (n,), fp='uf')]
    order = [17] + [d for d in range(32) if d != 17]
    us += [Unit('decode/%d' % d, 'modes', M.verify_decode, (d,), fp='uf') for d in order]
    us += [Unit('address/%d' % d, 'modes', M.verify_address, (d,), fp='uf') for d in range(32)]
    return us


def detector(tier):
    return [Unit('detect/2000', 'modes', M.verify_detect, ('mode_s_detect',), fp='uf', timeout=780), Unit('detect/2400', 'modes', M.verify_detect, ('mode_s_detect_2400',), fp='uf', timeout=780)]


COMMON = ['floating-point arithmetic is left uninterpreted (the speed and heading of a velocity report are compared with the same expression over the message bits)']


def get(pid):
    if pid == 'C17':
        return dict(modules=MODS, units=[decoder],
                    natives=lambda t: [Native('decode', 'modes.cpp', args=['decode'], opt='-O1', sources=SRC, secs=(8, 90))],
                    functions=['mode_s_checksum', 'fix_single_bit_errors', 'fix_two_bits_errors', 'add_recently_seen_icao_addr', 'icao_addr_was_recently_seen', 'icao_cache_has_address',
                               'brute_force_ap', 'mode_s_msg_len_by_type', 'decode_ac12_field', 'decode_ac13_field', 'mode_s_decode'],
                    assumptions=COMMON + ['time() returns a value up to 2^31',
                                 'the decoder state, the message and the report are separate objects; the message buffer holds at least the bytes its type says',
                                 'the parity columns are constants of the program, compared with the polynomial by long division'])
    if pid == 'C18':
        return dict(modules=MODS, units=[detector],
                    natives=lambda t: [Native('detect', 'modes.cpp', args=['detect'], opt='-O1', sources=SRC, secs=(12, 90))],
                    functions=['mode_s_detect', 'detect_out_of_phase', 'apply_phase_correction', 'mode_s_detect_2400', 'slice_phase0..4 and the correlation helpers (inlined)'],
                    assumptions=['the samples are left open at every read (any signal, and any result of any comparison of samples), fewer than 2^31 of them',
                                 'mode_s_decode is used through its contract (C17): it writes the report and nothing else the detector can see',
                                 'the callback does not write to the samples',
                                 'a message is a position: at most one valid message is reported per position; the same transmission found again at a later position is not excluded'])
    return None
