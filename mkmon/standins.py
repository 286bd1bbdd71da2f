"""Offline stand-ins for the two data files the package would otherwise download.
They are put only into the scratch copy the checks import."""
import contextlib
import dbm.dumb
import os
import resource

# first name -> the published classification
NAMES = {'Mary': 'Female', 'Anna': 'Female', 'Wei': 'Unknown', 'Robin': 'Unknown', 'John': 'Male', 'Peter': 'Male',
         'Élodie': 'Female', 'Jean': 'Male', 'Olga': 'Female', 'Ali': 'Male', 'Anne-Marie': 'Female'}

# abbreviation -> list of full names
JOURNALS = {
    'J CHEM PHYS': ['JOURNAL OF CHEMICAL PHYSICS'], 'NATURE': ['NATURE'], 'SCIENCE': ['SCIENCE', 'SCIENCE (NEW YORK)'],
    'PHYS REV LETT': ['PHYSICAL REVIEW LETTERS'], 'ANN PHYS': ['ANNALS OF PHYSICS'], 'OPT LETT': ['OPTICS LETTERS'],
    'LANCET': ['LANCET'], 'CELL': ['CELL'], 'SCIENTOMETRICS': ['SCIENTOMETRICS'], 'SOC NETWORKS': ['SOCIAL NETWORKS'],
    'AM J SOCIOL': ['AMERICAN JOURNAL OF SOCIOLOGY'],
}


def install(dst):
    d = os.path.join(dst, 'journalAbbreviations')
    if os.path.isdir(d):
        with dbm.dumb.open(os.path.join(d, 'j9Abbreviations'), 'c') as db:
            for k, v in JOURNALS.items():
                db[k] = '|'.join(v)
    g = os.path.join(dst, 'genders')
    if os.path.isdir(g):
        with open(os.path.join(g, 'namesData.csv'), 'w', encoding='utf-8') as f:
            f.write('"Name","years.appearing","count.male","count.female","prob.gender","obs.male","est.male","upper","lower"\n')
            for k, v in NAMES.items():
                f.write('"{}",10,1,1,"{}",0.5,0.5,0.9,0.1\n'.format(k.upper() if len(k) % 2 else k, v))


@contextlib.contextmanager
def fewFiles(n):
    """Lets this process open only n more files"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    used = {int(x) for x in os.listdir('/proc/self/fd')}
    used = {x for x in used if os.path.exists('/proc/self/fd/{}'.format(x))}
    limit = 0
    while n or limit in used:
        n -= limit not in used
        limit += 1
    resource.setrlimit(resource.RLIMIT_NOFILE, (limit, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
