class Graph(object):
    def __init__(self):
        self.graph_dict = {}

    def add_vertex(self, u):
        self.graph_dict.setdefault(u, {})

    def add_vertices(self, vertices):
        for u in vertices:
            self.add_vertex(u)

    def add_edge(self, u, v):
        self.add_vertex(u)
        self.add_vertex(v)
        self.graph_dict[u][v] = 1
        self.graph_dict[v][u] = 1

    def vertices(self):
        return list(self.graph_dict)
