MODS = ['bodies', 'joints', 'world', 'engine', 'step', 'contacts', 'solver', 'lint', 'misc', 'observe', 'options', 'breakout', 'draw']
