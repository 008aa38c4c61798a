// Sizes per property and tier, and what the evidence says about each.
const q = (n, cap = 420) => ({ n, cap });
const mk = (rule, quick, thorough, more = {}) => ({ rule, quick: q(quick), thorough: q(thorough, 3000), ...more });
export const CFG = {
  C01: mk('A random pair of schemas is divided into files and compared once, then again under other schedules.', 12000, 240000),
  C02: mk('Random files are linted once, then again under other schedules.', 5500, 110000),
  C03: mk('One run with whole reads against runs with divided, interrupted and delayed reads.', 6500, 130000),
  C04: mk('A fault is placed on one of the calls a fault-free run makes for its inputs.', 15000, 300000, { level: 'fault_enumeration' }),
  C05: mk('A random schema is edited at random and the report judged against a reference differ.', 24000, 480000),
  C06: mk('One pair of schemas in several file layouts.', 22000, 440000),
  C07: mk('Random files with random lint comments judged against a reference linter.', 17000, 340000),
  C08: mk('One joint run against one run per file.', 9500, 190000),
  C09: mk('Output failures placed on the writes of a run.', 6500, 130000, { level: 'fault_enumeration' }),
  C10: mk('Many files under a small descriptor limit and varying collector schedules.', 6000, 120000),
  C11: mk('Runs killed or disturbed at a random call, with the file system compared before and after.', 6000, 120000),
  C12: mk('Valid schemas torn or corrupted.', 9000, 180000, { fixed: true }),
  C13: mk('Calls made one by one on fresh documents, then concurrently on shared ones under several schedules; half of the cases also natively under the race detector.', 1700, 34000, { modules: ['api'] }),
  C15: mk('A history of calls in one process, against single calls in fresh processes and digests of everything passed in.', 6000, 120000, { modules: ['api'] }),
  C16: mk('One run without, against runs with unmatched files, directories, links and input lying around, failing and changing.', 7000, 180000),
  C17: mk('A command line that has to be refused, under schedules, with standard input that never ends, unusable files and failing output.', 20000, 400000),
  C14: mk('Files replaced atomically while a run reads them.', 2500, 50000),
};
