// Writes MANIFEST.json from checks/*.js and tools/dev/notes.json.
const fs = require('fs'), path = require('path');
const R = path.resolve(__dirname, '../..'), notes = JSON.parse(fs.readFileSync(path.join(__dirname, 'notes.json')));
const ids = fs.readFileSync(path.join(R, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l).id);
const checks = [], na = [];
for (const id of ids) {
  const f = path.join(R, 'checks', id + '.js');
  if (!fs.existsSync(f)) { na.push({ property: id, reason: notes.na[id] || 'not built yet' }); continue; }
  const c = require(f);
  checks.push({ property: id, quick_cmd: `node tools/run.js ${id} quick`, thorough_cmd: `node tools/run.js ${id} thorough`, technique: c.technique, level: c.level || 'model_checking', level_note: notes.level[id] || c.note || (typeof c.bounds === 'function' ? 'bounded: ' + c.bounds('quick') + require('../../lib/thin').note(id, 'quick') : 'bounded') });
}
fs.writeFileSync(path.join(R, 'MANIFEST.json'), JSON.stringify({
  version: 1, setup_cmd: 'bash tools/setup.sh',
  hooks: { guard: 'none', enable: 'No hook is needed: the checks stage /repo\'s sources outside /repo and build them there with stand-ins for the crates that are not available offline.', source_commits: [] },
  checks, not_applicable: na, notes: notes.notes,
}, null, 1) + '\n');
console.log(checks.length, 'checks;', na.map(x => x.property).join(' '), 'not claimed');
