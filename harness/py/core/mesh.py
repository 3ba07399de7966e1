class Index:
    def __init__(self, lon, lat, triangles):
        self.given = {'lon': lon, 'lat': lat, 'triangles': triangles}
