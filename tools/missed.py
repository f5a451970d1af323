CAUGHT = {}
MISSED = {
 'c06-room-now': 'geometry changes after adding loads and layers added',
 'c10-strengthless': 'soil without strength added as a case of its own; exact zeros kept exact in the evaluator',
 'c09-load-limits': 'models with analysis limits and with four loads added',
 'c01-search-reused': 'analyse-with-limit, analyse-again histories and number-indexed access to conditional lists added',
 'c02-level-kept': 'histories that take an object out and put it back added',
 'c01-limits-kept': 'shapes, edit histories or compared state widened',
 'c03-limits-partial': 'shapes, edit histories or compared state widened',
 'c04-true-is-number': 'shapes, edit histories or compared state widened',
 'c12-sort': 'factors of safety closer than the display precision added to the domain',
 'c06-layer-depth': 'shapes, edit histories or compared state widened',
 'c17-flag': 'shapes, edit histories or compared state widened',
 'c13-individual-filter': 'shapes, edit histories or compared state widened',
 'c13-legend-boundary': 'shapes, edit histories or compared state widened',
 'c13-search-limits': 'shapes, edit histories or compared state widened',
 'c14-colour-pool': 'shapes, edit histories or compared state widened',
 'c14-dynamic-magnitude': 'shapes, edit histories or compared state widened',
 'c20-inner-order': 'limits in every order in the domain',
 'c20-clean-angle': "rows pass through the form's clean methods; angles above 45 degrees",
 'c21-keep-search': 'lists of planes are open (a cut at any constant position is seen)',
 'c21-pdf-limit': 'text operations evaluated over malformed limits',
}
