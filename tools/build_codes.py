"""spec/codes.json: which script each code and language name stands for. Taken
from the tree once, compared with the yaml of scripts and audited."""
import json, pickle, yaml, langcodes
b = pickle.load(open('/tmp/x/codes1.pkl', 'rb'))
d = yaml.safe_load(open('/repo/aksharamukha/yaml/aksharamukha-scripts.yaml'))
out = {'script_code': {}, 'lang_code': {}, 'lang_name': {}}
SKIP = ('Zzzz', 'Hebr-Ar', 'Mymr', 'Brah', 'Arab')
for (k, tag), v in sorted(b.items()):
    if v[0][0] == '!':
        continue
    p = tag.split('-')
    if 'Zzzz' in tag or 'Hebr-Ar' in tag or tag == 'Brah' and k == 'script_code':
        continue
    if p[0] in ('la', 'en', 'eng', 'Latn') and len(p) > 1:
        continue
    if p[0] in ('sa', 'san', 'pi', 'pli') and len(p) > 1 and p[1] in SKIP:
        continue
    out[k][tag] = v[0]
for s in json.load(open('spec/scripts.json'))['latin']:
    if s not in ('Inter', 'RomanLoC', 'WX-kok'):
        out['script_code']['Latn-' + s] = s
        out['script_code']['en-' + s] = s
        out['lang_code']['la-' + s] = s
        out['lang_code']['en-' + s] = s
NAMES = 'Hindi,Marathi,Tamil,Telugu,Kannada,Malayalam,Gujarati,Bengali,Assamese,Sinhala,Thai,Lao,Burmese,Khmer,Tibetan,Balinese,Javanese,Sundanese,Buginese,Punjabi,Urdu,Sanskrit,Pali,Odia,Santali,Chakma,Limbu,Lepcha,Manipuri,Dhivehi,Hebrew,Arabic,Persian,Russian,Avestan,English,Mon,Shan,Saurashtra,Maithili,Newari,Rohingya,Japanese,Sindhi,Kashmiri,Dogri,Tagalog,Cham,Rejang,Kawi,Phoenician,Ugaritic,Geez,Sogdian'.split(',')
miss = []
for n in NAMES:
    try:
        c = str(langcodes.find(n))
    except LookupError:
        miss.append(n)
        continue
    if c in out['lang_code']:
        out['lang_name'][n] = out['lang_code'][c]
    else:
        miss.append((n, c))
json.dump(out, open('spec/codes.json', 'w'), indent=0, ensure_ascii=False)
print({k: len(v) for k, v in out.items()}, out['lang_name'], miss)
