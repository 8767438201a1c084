from apache_beam import Pipeline as TestPipeline
