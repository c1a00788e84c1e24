import json, subprocess
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--oneline'], text=True).strip().split('\n')]
M = {'3548652':'C04','88bf91d':'C01','d813045':'C23','83b2023':'C22','cbab0ba':'C20','56e0110':'C15','309c9f8':'C13','53b0f33':'C09','e262ff8':'C13','5aa00e4':'C19','0f336e4':'C05','ef4f0ff':'C04','24cb0c4':'C04','9894759':'C27','47d50a2':'C25','0f9bfa7':'C26','ffaa56d':'C24','8db450e':'C06','c1887f9':'C14','42870de':'C14','53a16ae':'C14','55276c6':'C14','3912547':'C25','a428123':'C22','ae5c390':'C26','f191633':'C21','71bb5a8':'C21','aa9802c':'C20','9a1fa17':'C20','622a395':'C20','8fe6dfe':'C20','32b8d98':'C23','f997530':'C19','8181219':'C18','e8b0499':'C13','a8579a7':'C10','93094a0':'C11','16c2c0c':'C09','e516a99':'C03','2c9d925':'C04','a2d7b64':'C02','ba0a1d8':'C22'}
fixed = []
for h, m in log:
    if h == '44c2eae': continue
    assert h in M, (h, m)
    fixed.append('fixed: property=%s %s %s' % (M[h], h, m.replace('fix: ', '')))
findings = [{'id': 'C28-labels', 'property': 'C28', 'match': ['"kind": "label"', 'are labelled one bin width below the centres of the bins'],
             'where': 'Quasiparticle.write_atomic_displacements with the distances of get_atomic_displacements (dynaphopy/__init__.py)',
             'what': 'write_atomic_displacements labels every row of the file of displacement distributions one bin width below the centre of its bin (lower edge minus half a bin)',
             'why not repaired': 'the reference files of the existing tests (unittest/GaN_data, unittest/Si_data) hold the shifted labels: with the labels corrected test_q_points_data of GaN_test and Si_test fails'}]
json.dump({'findings': findings, 'fixed': fixed}, open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/known_findings.json', 'w'), indent=1)
