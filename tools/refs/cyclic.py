P='parse.go'
BODY='''	fileCount := 0
	for len(queue) > 0 {
		// dequeue
		file := queue[0]
		queue = queue[1:]
		fileCount++

		// decrease each neighbor's in degree
		neighbors := p.includeEdges[file]
		for _, f := range neighbors {
			p.includeInDegree[f]--
			if p.includeInDegree[f] == 0 {
				queue = append(queue, f)
			}
		}
	}
	return fileCount != len(p.includeInDegree)
'''
MUTS=[
('stack',(P,'		file := queue[0]\n		queue = queue[1:]\n','		file := queue[len(queue)-1]\n		queue = queue[:len(queue)-1]\n')),
('deg',(P,'			p.includeInDegree[f]--\n			if p.includeInDegree[f] == 0 {','			deg := p.includeInDegree[f] - 1\n			p.includeInDegree[f] = deg\n			if deg == 0 {')),
('countlate',(P,'		fileCount++\n\n',''),(P,'				queue = append(queue, f)\n			}\n		}\n	}\n	return','				queue = append(queue, f)\n			}\n		}\n		fileCount++\n	}\n	return')),
('left',(P,'	fileCount := 0\n','	left := len(p.includeInDegree)\n'),(P,'		fileCount++\n\n','		left--\n\n'),(P,'	return fileCount != len(p.includeInDegree)','	return left > 0')),
('less',(P,'return fileCount != len(','return fileCount < len(')),
('index',(P,'	for len(queue) > 0 {\n		// dequeue\n		file := queue[0]\n		queue = queue[1:]\n		fileCount++\n','	for ; fileCount < len(queue); fileCount++ {\n		file := queue[fileCount]\n')),
('helper',(P,'		neighbors := p.includeEdges[file]\n		for _, f := range neighbors {\n			p.includeInDegree[f]--\n			if p.includeInDegree[f] == 0 {\n				queue = append(queue, f)\n			}\n		}\n','		for _, f := range p.includeEdges[file] {\n			if p.release(f) {\n				queue = append(queue, f)\n			}\n		}\n'),(P,'// isAcyclic performs','func (p *parser) release(f string) bool {\n	p.includeInDegree[f]--\n	return p.includeInDegree[f] == 0\n}\n\n// isAcyclic performs')),
('roots',(P,'	var queue []string\n	for k, v := range p.includeInDegree {\n		if v == 0 {\n			queue = append(queue, k)\n		}\n	}\n','	queue := p.roots()\n'),(P,'// isAcyclic performs','func (p *parser) roots() []string {\n	queue := make([]string, 0)\n	for k := range p.includeInDegree {\n		if p.includeInDegree[k] == 0 {\n			queue = append(queue, k)\n		}\n	}\n	return queue\n}\n\n// isAcyclic performs')),
('continue',(P,'			if p.includeInDegree[f] == 0 {\n				queue = append(queue, f)\n			}\n','			if p.includeInDegree[f] > 0 {\n				continue\n			}\n			queue = append(queue, f)\n')),
('idxloop',(P,'		for _, f := range neighbors {\n','		for i := 0; i < len(neighbors); i++ {\n			f := neighbors[i]\n')),
]
