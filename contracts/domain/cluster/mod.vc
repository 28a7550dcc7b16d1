keep Cluster
clone-eq Cluster
