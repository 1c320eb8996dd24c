import json, subprocess
rows = [
('aeb0889','C02','zero_pad(df<=0) reset the record\'s multiple (and could pad) before rejecting the step'),
('cbb60cb','C13','copies of a trimmed or padded record lost their delay and frequency step'),
('fb2ecd6','C06','a source exactly at the last sensor left the traces far-to-near'),
('42ee57f','C07','an out-of-range sensor between in-range ones made trim_offsets drop the wrong sensors'),
('e63b2bc','C10','receiver y was taken from the x header when the coordinate scalar was positive'),
('fdcc1da','C10','a SEG-Y coordinate scalar of zero raised instead of counting as one'),
('c6bd1e3','C11','second and later files of a shot ignored the maps and read options, and were paired by trace order'),
('927275c','C12','to_file wrote the stack count to a header from_files does not read'),
('c60a8dc','C19','the beamformer assigned a 1x1 array to a scalar cell (TypeError with current numpy)'),
('53f745a','C19','the fk transform overwrote the weighting and steering of the caller\'s settings'),
('0e822ff','C15','signal-to-noise frequencies ignored the frequency multiple after padding (also C35)'),
('da15f3e','C20','the slant stack could index past the record for slow velocities with inexact moveout'),
('e568ede','C25','Peaks.from_dict removed entries of the caller\'s dictionary'),
('71e9682','C33','comparing peak sets of different sizes raised or broadcast'),
('973f84f','C32','a wave type found in one .max file carried over to the following files'),
('2543a83','C32','.max lines matched in part: times, frequencies and validity flags matched by prefix'),
('f16a224','C30','mute ignored the window options of the settings'),
('6113c6b','C30','the frequency-domain workflow iterated over the characters of a single file name'),
('c11dcee','C16','peaks of complex (beamformer) power were picked by real part, not magnitude'),
]
log = dict(l.split(' ',1) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines())
out = {'findings': [], 'fixed': []}
for h,p,w in rows:
    assert log[h].startswith('fix:'), h
    out['fixed'].append(f'fixed: property={p} {h} {w}')
json.dump(out, open('/verif/known_findings.json','w'), indent=1)
