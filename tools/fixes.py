"""Rewrite the 'fixed' entries of known_findings.json from /repo's history."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 'loom transitions of an engine run one pass when no number is given': 'C19',
 'every loom project has a directory of its own': 'C19',
 'a state whose data or types have changed makes a new loom project': 'C19',
 'rejected updates leave the model unchanged': 'C02',
 'incorporate_dim keeps its own copy of the column': 'C02',
 'removed columns leave the dependence constraints': 'C12',
 'every column partition is checked against its constraints': 'C12',
 'forcing a cell updates the dims conditioned on it': 'C01',
 'relevance probability never changes the view': 'C10',
 'column proposals share the source of entropy': 'C06',
 'saved metadata shares no structure with the state': 'C11',
 'loaded states know their conditional dims': 'C11',
 'composed cgpms keep their tokens when loaded': 'C11',
 'saved models keep their uncollapsed parameters': 'C11',
 'hypothetical rows never touch the model': 'C10',
 'Beta scores the endpoints as it records them': 'C04',
 'variables are dependent on the sources of their ancestors': 'C17',
 'parallel_map raises when a worker cannot answer': 'C14',
 'statenos address exactly the requested models': 'C13',
 'queries advance the models of serial and multiprocess engines alike': 'C13',
 'loading an engine leaves its metadata unchanged': 'C11',
 'likelihood weights take inputs as inputs': 'C23',
 'columns without observed cells have hyperparameter grids': 'C02',
 'network queries of unknown variables are refused': 'C16',
 'new columns cannot take the outputs of a composed cgpm': 'C15',
 'composed variables can be scored for an observed row': 'C16',
 'a cgpm that cannot be composed is never left hooked': 'C15',
 'kernel densities range over the levels of each variable': 'C20',
 'PieceWise scores the joint at both of its values': 'C20',
 'FourWay probabilities sum to one': 'C20',
 'RandomForest forgets the counts of removed rows': 'C20',
 'FactorAnalysis scores the rows it has recorded': 'C20',
 'OLS simulates as many rows as requested for an observed row': 'C20',
 'marginal density of undirected models': 'C20',
 'directed models pass constraints, inputs and N to their network': 'C20',
 'BareBonesCGpm simulates only its targets': 'C20',
 'directed models share the given source of entropy': 'C21',
 'TrollNormal density at integer values': 'C20',
 'conditional density of Dots is that of the target': 'C20',
 'saved linear regressions keep their prior mean and covariance': 'C11',
 'saved TrollNormals keep their rows': 'C11',
 'loading a regression leaves its metadata unchanged': 'C11',
 'saved regressions share no structure with their metadata': 'C11',
 'conditional normal given nothing is the normal itself': 'C25',
 'composed models refuse queries of unknown variables, networks do not': 'C16',
 'schema parser reads categorical(k=...) statistical types and keeps their number of levels': 'C24',
 'conditional mutual information marginalises over the conditions given the fixed ones': 'C18',
 'row partitions are exported to lovecat in the order of the rows': 'C19',
 'lovecat transitions run one step when neither steps nor seconds are given': 'C19',
 'dependence constraints are exported to lovecat by column index': 'C19',
 'a transition of zero iterations or zero seconds runs no kernel': 'C22',
 'gibbs tables of a component without observations are a single fresh table': 'C24',
}
def main():
    p = os.path.join(ROOT, 'known_findings.json')
    known = json.load(open(p))
    have = {k['id'] for k in known}
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode()
    for ln in log.splitlines():
        h, s = ln.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        if 'fixed-' + h in have or any(h in i for i in have):
            continue
        prop = PROP.get(s[5:])
        if not prop:
            print('no property for', ln); continue
        known.append({'id': 'fixed-' + h, 'property': prop, 'status': 'fixed', 'keys': [],
                      'what': 'fixed: property=%s %s %s' % (prop, h, s[5:])})
    with open(p, 'w') as f:
        json.dump(known, f, indent=1); f.write('\n')
main()
