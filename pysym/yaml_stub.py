"""stands in for yaml: the document is handed over directly"""
